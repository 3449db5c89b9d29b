// xy is an arc from x to y of an adjacency array
pub open spec fn graph_ok(fo: Seq<u32>, head: Seq<u32>) -> bool {
    &&& 1 <= fo.len() < 0x1_0000_0000
    &&& head.len() < 0xFFFF_FFFF
    &&& fo[fo.len() - 1] == head.len()
    &&& forall|i: int, j: int| 0 <= i <= j < fo.len() ==> #[trigger] fo[i] <= #[trigger] fo[j]
}
pub open spec fn is_arc(fo: Seq<u32>, head: Seq<u32>, xy: int, x: int, y: int) -> bool { fo[x] <= xy < fo[x + 1] && head[xy] == y }
// ---- unpacking
// an arc of the hierarchy in a direction
pub struct Sg { pub a: int, pub fw: bool }
impl CustomizableContractionHierarchy {
    // the triangle explains the weight of its upper arc
    pub open spec fn fit(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool, b: int, m: int) -> bool {
        self.tri(b, m, t) && wt(f, g, t, fw) == wt(f, g, b, !fw) + wt(f, g, m, fw)
    }
    // and has the least lower node of those that do
    pub open spec fn sel(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool, b: int, m: int) -> bool {
        self.fit(f, g, t, fw, b, m) && forall|b2: int, m2: int| #[trigger] self.fit(f, g, t, fw, b2, m2) ==> self.tl(b) <= self.tl(b2)
    }
    pub open spec fn leaf(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool) -> bool { forall|b: int, m: int| !#[trigger] self.fit(f, g, t, fw, b, m) }
    pub open spec fn pick(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool) -> (int, int) { choose|p: (int, int)| #[trigger] self.sel(f, g, t, fw, p.0, p.1) }
    // the arcs without such a triangle that arc t stands for
    pub open spec fn unpc(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool) -> Seq<Sg>
        decreases t
    {
        let (b, m) = self.pick(f, g, t, fw);
        if self.leaf(f, g, t, fw) { seq![Sg { a: t, fw: fw }] }
        else if !(0 <= b < t && 0 <= m < t) { Seq::empty() }
        else if fw { self.unpc(f, g, b, false) + self.unpc(f, g, m, true) }
        else { self.unpc(f, g, m, false) + self.unpc(f, g, b, true) }
    }
    pub open spec fn sst(&self, s: Sg) -> int { self.st(s.a, s.fw) }
    pub open spec fn sen(&self, s: Sg) -> int { self.en(s.a, s.fw) }
    // the segments lead from u to v
    pub open spec fn swalk(&self, q: Seq<Sg>, u: int, v: int) -> bool
        decreases q.len()
    {
        if q.len() == 0 { u == v && 0 <= u < self.n() }
        else { self.arc(q.last().a) && self.sen(q.last()) == v && self.swalk(q.drop_last(), u, self.sst(q.last())) }
    }
    pub open spec fn init(&self, w: Seq<u32>, a: int, fw: bool) -> int { if fw { self.initf(w, a) } else { self.initb(w, a) } }
    // each is an input arc
    pub open spec fn plain(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, q: Seq<Sg>) -> bool {
        forall|i: int| 0 <= i < q.len() ==> self.arc((#[trigger] q[i]).a) && wt(f, g, q[i].a, q[i].fw) < INF() && wt(f, g, q[i].a, q[i].fw) == self.init(w, q[i].a, q[i].fw)
    }
    // the segments are arcs with input weight, lead from u to v, and have the length l
    #[verifier::opaque]
    pub open spec fn sreal(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, q: Seq<Sg>, u: int, v: int, l: int) -> bool {
        self.swalk(q, u, v) && slen(f, g, q) == l && self.plain(w, f, g, q)
    }
    // input arc j is what the segment stands for
    pub open spec fn stands_in(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, s: Sg, j: int) -> bool {
        self.used(j) && self.lk(j) == s.a && self.is_up(j) == s.fw && w[j] == wt(f, g, s.a, s.fw)
    }
    #[verifier::opaque]
    pub open spec fn app_arc(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, o: Seq<u32>, p: Seq<u32>, q: Seq<Sg>) -> bool {
        &&& p.len() == o.len() + q.len()
        &&& forall|i: int| 0 <= i < o.len() ==> #[trigger] p[i] == o[i]
        &&& forall|i: int| 0 <= i < q.len() ==> self.stands_in(w, f, g, #[trigger] q[i], p[o.len() + i] as int)
    }
    // the node at which each segment starts
    #[verifier::opaque]
    pub open spec fn app_node(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, o: Seq<u32>, p: Seq<u32>, q: Seq<Sg>) -> bool {
        &&& p.len() == o.len() + q.len()
        &&& forall|i: int| 0 <= i < o.len() ==> #[trigger] p[i] == o[i]
        &&& forall|i: int| 0 <= i < q.len() ==> p[o.len() + i] == self.order@[self.sst(#[trigger] q[i])]
    }
    pub proof fn app_arc_none(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, o: Seq<u32>)
        ensures self.app_arc(w, f, g, o, o, Seq::<Sg>::empty())
    { reveal(CustomizableContractionHierarchy::app_arc); }
    pub proof fn app_node_none(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, o: Seq<u32>)
        ensures self.app_node(w, f, g, o, o, Seq::<Sg>::empty())
    { reveal(CustomizableContractionHierarchy::app_node); }
    pub proof fn app_arc_one(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, o: Seq<u32>, j: u32, s: Sg)
        requires self.stands_in(w, f, g, s, j as int),
        ensures self.app_arc(w, f, g, o, o.push(j), seq![s])
    { reveal(CustomizableContractionHierarchy::app_arc); }
    pub proof fn app_node_one(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, o: Seq<u32>, s: Sg)
        ensures self.app_node(w, f, g, o, o.push(self.order@[self.sst(s)]), seq![s])
    { reveal(CustomizableContractionHierarchy::app_node); }
    pub proof fn app_arc_cat(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, o: Seq<u32>, p: Seq<u32>, q: Seq<u32>, a: Seq<Sg>, b: Seq<Sg>)
        requires self.app_arc(w, f, g, o, p, a), self.app_arc(w, f, g, p, q, b),
        ensures self.app_arc(w, f, g, o, q, a + b)
    {
        reveal(CustomizableContractionHierarchy::app_arc);
        assert forall|i: int| 0 <= i < o.len() implies #[trigger] q[i] == o[i] by { assert(p[i] == o[i]); }
        assert forall|i: int| 0 <= i < (a + b).len() implies self.stands_in(w, f, g, #[trigger] (a + b)[i], q[o.len() + i] as int) by {
            if i < a.len() { assert((a + b)[i] == a[i]); assert(p[o.len() + i] == q[o.len() + i]); } else { assert((a + b)[i] == b[i - a.len()]); }
        }
    }
    pub proof fn app_node_cat(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, o: Seq<u32>, p: Seq<u32>, q: Seq<u32>, a: Seq<Sg>, b: Seq<Sg>)
        requires self.app_node(w, f, g, o, p, a), self.app_node(w, f, g, p, q, b),
        ensures self.app_node(w, f, g, o, q, a + b)
    {
        reveal(CustomizableContractionHierarchy::app_node);
        assert forall|i: int| 0 <= i < o.len() implies #[trigger] q[i] == o[i] by { assert(p[i] == o[i]); }
        assert forall|i: int| 0 <= i < (a + b).len() implies q[o.len() + i] == self.order@[self.sst(#[trigger] (a + b)[i])] by {
            if i < a.len() { assert((a + b)[i] == a[i]); assert(p[o.len() + i] == q[o.len() + i]); } else { assert((a + b)[i] == b[i - a.len()]); }
        }
    }
    pub proof fn app_arc_join(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, o: Seq<u32>, q: Seq<u32>, a: Seq<Sg>, b: Seq<Sg>)
        requires exists|p: Seq<u32>| #[trigger] self.app_arc(w, f, g, o, p, a) && self.app_arc(w, f, g, p, q, b),
        ensures self.app_arc(w, f, g, o, q, a + b)
    { let p = choose|p: Seq<u32>| #[trigger] self.app_arc(w, f, g, o, p, a) && self.app_arc(w, f, g, p, q, b); self.app_arc_cat(w, f, g, o, p, q, a, b); }
    pub proof fn app_node_join(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, o: Seq<u32>, q: Seq<u32>, a: Seq<Sg>, b: Seq<Sg>)
        requires exists|p: Seq<u32>| #[trigger] self.app_node(w, f, g, o, p, a) && self.app_node(w, f, g, p, q, b),
        ensures self.app_node(w, f, g, o, q, a + b)
    { let p = choose|p: Seq<u32>| #[trigger] self.app_node(w, f, g, o, p, a) && self.app_node(w, f, g, p, q, b); self.app_node_cat(w, f, g, o, p, q, a, b); }
    // ---- the search for the triangle
    // no triangle with a down arc before d of x or before e of y fits
    #[verifier::opaque]
    pub open spec fn nofit(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool, d0: int, e0: int) -> bool {
        forall|d: int, e: int| #[trigger] self.down(d, self.tl(t)) && #[trigger] self.down(e, self.hd(t)) && self.down_head@[d] == self.down_head@[e] && (d < d0 || e < e0) ==> !self.fit(f, g, t, fw, self.down_to_up@[d] as int, self.down_to_up@[e] as int)
    }
    pub proof fn lemma_nofit_start(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool)
        requires self.wf_up(), self.wf_down(), self.arc(t),
        ensures self.nofit(f, g, t, fw, self.down_first_out@[self.tl(t)] as int, self.down_first_out@[self.hd(t)] as int),
            self.down_first_out@[self.tl(t)] <= self.down_first_out@[self.tl(t) + 1] <= self.m(), self.down_first_out@[self.hd(t)] <= self.down_first_out@[self.hd(t) + 1] <= self.m()
    { reveal(CustomizableContractionHierarchy::nofit); assert(self.down_first_out@[self.tl(t) + 1] <= self.down_first_out@[self.n()]); assert(self.down_first_out@[self.hd(t) + 1] <= self.down_first_out@[self.n()]); }
    // positions d, e in the lists
    pub open spec fn at(&self, t: int, d: int, e: int) -> bool { self.down(d, self.tl(t)) && self.down(e, self.hd(t)) }
    pub proof fn lemma_nofit_x(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool, d: int, e: int)
        requires self.wf_up(), self.wf_down(), self.arc(t), self.nofit(f, g, t, fw, d, e), self.at(t, d, e), self.down_head@[d] < self.down_head@[e],
        ensures self.nofit(f, g, t, fw, d + 1, e)
    { reveal(CustomizableContractionHierarchy::nofit); }
    pub proof fn lemma_nofit_y(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool, d: int, e: int)
        requires self.wf_up(), self.wf_down(), self.arc(t), self.nofit(f, g, t, fw, d, e), self.at(t, d, e), self.down_head@[d] > self.down_head@[e],
        ensures self.nofit(f, g, t, fw, d, e + 1)
    { reveal(CustomizableContractionHierarchy::nofit); }
    pub proof fn lemma_nofit_both(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool, d: int, e: int)
        requires self.wf_up(), self.wf_down(), self.arc(t), self.nofit(f, g, t, fw, d, e), self.at(t, d, e), self.down_head@[d] == self.down_head@[e], !self.fit(f, g, t, fw, self.down_to_up@[d] as int, self.down_to_up@[e] as int),
        ensures self.nofit(f, g, t, fw, d + 1, e + 1)
    {
        reveal(CustomizableContractionHierarchy::nofit);
        assert forall|d2: int, e2: int| #[trigger] self.down(d2, self.tl(t)) && #[trigger] self.down(e2, self.hd(t)) && self.down_head@[d2] == self.down_head@[e2] && (d2 < d + 1 || e2 < e + 1) implies !self.fit(f, g, t, fw, self.down_to_up@[d2] as int, self.down_to_up@[e2] as int) by {
            if d2 >= d && e2 >= e { if d2 > d { assert(e2 == e); } else if e2 > e { assert(d2 == d); } }
        }
    }
    pub proof fn lemma_at_tri(&self, t: int, d: int, e: int)
        requires self.wf_up(), self.wf_down(), self.arc(t), self.at(t, d, e), self.down_head@[d] == self.down_head@[e],
        ensures self.tri(self.down_to_up@[d] as int, self.down_to_up@[e] as int, t), self.tl(self.down_to_up@[d] as int) == self.down_head@[d]
    { assert(self.down(d, self.tl(t))); assert(self.down(e, self.hd(t))); }
    // positions of a triangle
    pub proof fn lemma_tri_at(&self, b: int, m: int, t: int) -> (r: (int, int))
        requires self.wf_up(), self.wf_down(), self.tri(b, m, t),
        ensures self.at(t, r.0, r.1), self.down_to_up@[r.0] == b, self.down_to_up@[r.1] == m, self.down_head@[r.0] == self.down_head@[r.1], self.down_head@[r.0] == self.tl(b)
    {
        assert(self.arc(b) && self.arc(m));
        let d = choose|d: int| #[trigger] self.down(d, self.hd(b)) && self.down_to_up@[d] == b;
        let e = choose|e: int| #[trigger] self.down(e, self.hd(m)) && self.down_to_up@[e] == m;
        (d, e)
    }
    pub proof fn lemma_leaf(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool, d0: int, e0: int)
        requires self.wf_up(), self.wf_down(), self.arc(t), self.nofit(f, g, t, fw, d0, e0), d0 == self.down_first_out@[self.tl(t) + 1] || e0 == self.down_first_out@[self.hd(t) + 1],
        ensures self.leaf(f, g, t, fw)
    {
        assert forall|b: int, m: int| !#[trigger] self.fit(f, g, t, fw, b, m) by {
            if self.tri(b, m, t) { let (d, e) = self.lemma_tri_at(b, m, t); reveal(CustomizableContractionHierarchy::nofit); }
        }
    }
    pub proof fn lemma_sel_at(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool, d: int, e: int)
        requires self.wf_up(), self.wf_down(), self.arc(t), self.nofit(f, g, t, fw, d, e), self.at(t, d, e), self.down_head@[d] == self.down_head@[e], self.fit(f, g, t, fw, self.down_to_up@[d] as int, self.down_to_up@[e] as int),
        ensures self.sel(f, g, t, fw, self.down_to_up@[d] as int, self.down_to_up@[e] as int), self.tl(self.down_to_up@[d] as int) == self.down_head@[d]
    {
        self.lemma_at_tri(t, d, e);
        assert forall|b: int, m: int| #[trigger] self.fit(f, g, t, fw, b, m) implies self.down_head@[d] <= self.tl(b) by {
            let (d2, e2) = self.lemma_tri_at(b, m, t); reveal(CustomizableContractionHierarchy::nofit);
        }
    }
    pub proof fn lemma_sel_unique(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool, b: int, m: int)
        requires self.wf_up(), self.sel(f, g, t, fw, b, m),
        ensures self.pick(f, g, t, fw) == (b, m), !self.leaf(f, g, t, fw), 0 <= b < t, 0 <= m < t
    {
        let p = (b, m);
        assert(self.sel(f, g, t, fw, p.0, p.1));
        let (b2, m2) = self.pick(f, g, t, fw);
        assert(self.sel(f, g, t, fw, b2, m2));
        assert(self.fit(f, g, t, fw, b2, m2));
        lemma_arc_unique(self, b, b2); lemma_arc_unique(self, m, m2);
        lemma_lower(self, b, m, t);
    }
    pub proof fn lemma_sel_exists(&self, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool, b: int, m: int) -> (r: (int, int))
        requires self.wf_up(), self.fit(f, g, t, fw, b, m),
        ensures self.sel(f, g, t, fw, r.0, r.1)
        decreases self.tl(b)
    {
        if forall|b2: int, m2: int| #[trigger] self.fit(f, g, t, fw, b2, m2) ==> self.tl(b) <= self.tl(b2) { (b, m) }
        else {
            let p = choose|p: (int, int)| #[trigger] self.fit(f, g, t, fw, p.0, p.1) && self.tl(p.0) < self.tl(b);
            assert(exists|b2: int, m2: int| #[trigger] self.fit(f, g, t, fw, b2, m2) && self.tl(b2) < self.tl(b));
            let (b2, m2) = choose|b2: int, m2: int| #[trigger] self.fit(f, g, t, fw, b2, m2) && self.tl(b2) < self.tl(b);
            assert(self.fit(f, g, t, fw, (b2, m2).0, (b2, m2).1));
            assert(self.arc(b2));
            self.lemma_sel_exists(f, g, t, fw, b2, m2)
        }
    }
    // ---- segments
    pub proof fn lemma_swalk_cat(&self, f: Seq<u32>, g: Seq<u32>, p: Seq<Sg>, q: Seq<Sg>, s: int, x: int, t: int)
        requires self.swalk(p, s, x), self.swalk(q, x, t),
        ensures self.swalk(p + q, s, t), slen(f, g, p + q) == slen(f, g, p) + slen(f, g, q)
        decreases q.len()
    {
        if q.len() == 0 { assert(p + q =~= p); }
        else {
            self.lemma_swalk_cat(f, g, p, q.drop_last(), s, x, self.sst(q.last()));
            assert((p + q).drop_last() =~= p + q.drop_last());
            assert((p + q).last() == q.last());
        }
    }
    pub proof fn sreal_none(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, u: int)
        requires 0 <= u < self.n(),
        ensures self.sreal(w, f, g, Seq::<Sg>::empty(), u, u, 0)
    { reveal(CustomizableContractionHierarchy::sreal); }
    pub proof fn sreal_cat(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, p: Seq<Sg>, q: Seq<Sg>, u: int, x: int, v: int, k: int, l: int)
        requires self.sreal(w, f, g, p, u, x, k), self.sreal(w, f, g, q, x, v, l),
        ensures self.sreal(w, f, g, p + q, u, v, k + l)
    {
        reveal(CustomizableContractionHierarchy::sreal);
        self.lemma_swalk_cat(f, g, p, q, u, x, v);
        assert forall|i: int| 0 <= i < (p + q).len() implies self.arc((#[trigger] (p + q)[i]).a) && wt(f, g, (p + q)[i].a, (p + q)[i].fw) < INF() && wt(f, g, (p + q)[i].a, (p + q)[i].fw) == self.init(w, (p + q)[i].a, (p + q)[i].fw) by {
            if i < p.len() { assert((p + q)[i] == p[i]); } else { assert((p + q)[i] == q[i - p.len()]); }
        }
    }
    pub proof fn lemma_leaf_init(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool)
        requires self.good(w, f, g), self.arc(t), self.leaf(f, g, t, fw),
        ensures wt(f, g, t, fw) == self.init(w, t, fw)
    {
        assert(self.local(w, f, g, t));
        if wt(f, g, t, fw) != self.init(w, t, fw) {
            if fw { let (b, m) = open_witf(self, w, f, g, t); assert(self.fit(f, g, t, fw, b, m)); }
            else { let (b, m) = open_witb(self, w, f, g, t); assert(self.fit(f, g, t, fw, b, m)); }
        }
    }
    pub proof fn lemma_unpc(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, t: int, fw: bool)
        requires self.good(w, f, g), self.arc(t), wt(f, g, t, fw) < INF(),
        ensures self.sreal(w, f, g, self.unpc(f, g, t, fw), self.st(t, fw), self.en(t, fw), wt(f, g, t, fw))
        decreases t
    {
        if self.leaf(f, g, t, fw) {
            self.lemma_leaf_init(w, f, g, t, fw);
            reveal(CustomizableContractionHierarchy::sreal);
            let q = seq![Sg { a: t, fw: fw }];
            assert(q.drop_last() =~= Seq::<Sg>::empty()); assert(slen(f, g, q.drop_last()) == 0); assert(self.swalk(q.drop_last(), self.st(t, fw), self.st(t, fw)));
            assert(q.last() == Sg { a: t, fw: fw });
        } else {
            let (b0, m0) = choose|b: int, m: int| #[trigger] self.fit(f, g, t, fw, b, m);
            let (b, m) = self.lemma_sel_exists(f, g, t, fw, b0, m0);
            self.lemma_sel_unique(f, g, t, fw, b, m);
            assert(self.fit(f, g, t, fw, b, m));
            self.lemma_unpc(w, f, g, b, !fw); self.lemma_unpc(w, f, g, m, fw);
            if fw { self.sreal_cat(w, f, g, self.unpc(f, g, b, false), self.unpc(f, g, m, true), self.st(t, fw), self.tl(b), self.en(t, fw), wt(f, g, b, false), wt(f, g, m, true)); }
            else { self.sreal_cat(w, f, g, self.unpc(f, g, m, false), self.unpc(f, g, b, true), self.st(t, fw), self.tl(b), self.en(t, fw), wt(f, g, m, false), wt(f, g, b, true)); }
        }
    }
    // the input arcs that stand for segments are a walk
    pub proof fn lemma_arcs(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, q: Seq<Sg>, p: Seq<u32>, u: int, v: int)
        requires self.swalk(q, u, v), p.len() == q.len(), forall|i: int| 0 <= i < q.len() ==> self.stands_in(w, f, g, #[trigger] q[i], p[i] as int),
        ensures self.walk(ints(p), u, v), wlen(w, ints(p)) == slen(f, g, q)
        decreases q.len()
    {
        if q.len() > 0 {
            let k = q.len() - 1;
            assert(ints(p).drop_last() =~= ints(p.drop_last()));
            assert(ints(p).last() == p[k]);
            assert(self.stands_in(w, f, g, q[k], p[k] as int));
            assert forall|i: int| 0 <= i < q.drop_last().len() implies self.stands_in(w, f, g, #[trigger] q.drop_last()[i], p.drop_last()[i] as int) by { assert(q.drop_last()[i] == q[i]); }
            self.lemma_arcs(w, f, g, q.drop_last(), p.drop_last(), u, self.sst(q.last()));
        }
    }
    // nodes of consecutive segments
    pub proof fn lemma_swalk_at(&self, q: Seq<Sg>, u: int, v: int)
        requires self.swalk(q, u, v),
        ensures q.len() > 0 ==> self.sst(q[0]) == u && self.sen(q.last()) == v, forall|i: int| 0 <= i < q.len() - 1 ==> #[trigger] self.sen(q[i]) == self.sst(q[i + 1])
        decreases q.len()
    {
        if q.len() > 0 {
            reveal_with_fuel(CustomizableContractionHierarchy::swalk, 3);
            let q2 = q.drop_last();
            self.lemma_swalk_at(q2, u, self.sst(q.last()));
            assert(self.sen(q.last()) == v);
            if q2.len() > 0 { assert(q2[0] == q[0]); assert(self.sst(q2[0]) == u); } else { assert(q.last() == q[0]); assert(self.sst(q.last()) == u); }
            assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] self.sen(q[i]) == self.sst(q[i + 1]) by {
                assert(q2[i] == q[i]);
                if i < q2.len() - 1 { assert(self.sen(q2[i]) == self.sst(q2[i + 1])); } else { assert(q2.last() == q[i]); assert(q[i + 1] == q.last()); }
            }
        }
    }
    pub open spec fn arcof(&self, x: int, y: int) -> int { choose|a: int| #[trigger] self.arc(a) && self.tl(a) == x && self.hd(a) == y }
    pub proof fn lemma_arcof(&self, a: int)
        requires self.wf_up(), self.arc(a),
        ensures self.arcof(self.tl(a), self.hd(a)) == a
    { let b = self.arcof(self.tl(a), self.hd(a)); assert(self.arc(b) && self.tl(b) == self.tl(a) && self.hd(b) == self.hd(a)); lemma_arc_unique(self, a, b); }
}
pub open spec fn slen(f: Seq<u32>, g: Seq<u32>, q: Seq<Sg>) -> int
    decreases q.len()
{ if q.len() == 0 { 0 } else { slen(f, g, q.drop_last()) + wt(f, g, q.last().a, q.last().fw) } }
pub open spec fn ints(p: Seq<u32>) -> Seq<int> { Seq::new(p.len(), |i: int| p[i] as int) }
// ---- the path of a query
pub open spec fn stop(pred: Seq<u32>, v: int) -> bool { pred[v] == INV() || !(0 <= pred[v] < v) }
pub open spec fn root(pred: Seq<u32>, v: int) -> int
    decreases v
{ if stop(pred, v) { v } else { root(pred, pred[v] as int) } }
impl CustomizableContractionHierarchyQuery {
    pub open spec fn pf(&self) -> Seq<u32> { self.forward_predecessor_node@ }
    pub open spec fn pb(&self) -> Seq<u32> { self.backward_predecessor_node@ }
    pub open spec fn df(&self) -> Seq<u32> { self.forward_tentative_distance@ }
    pub open spec fn db(&self) -> Seq<u32> { self.backward_tentative_distance@ }
    pub open spec fn meet(&self) -> int { self.shortest_path_meeting_node as int }
    pub open spec fn un(&self, x: int, y: int, fw: bool) -> Seq<Sg> { self.c().unpc(self.f(), self.g(), self.c().arcof(x, y), fw) }
    pub open spec fn ascent(&self, v: int) -> Seq<Sg>
        decreases v
    { if stop(self.pf(), v) { Seq::empty() } else { self.ascent(self.pf()[v] as int) + self.un(self.pf()[v] as int, v, true) } }
    pub open spec fn descent(&self, v: int) -> Seq<Sg>
        decreases v
    { if stop(self.pb(), v) { Seq::empty() } else { self.un(self.pb()[v] as int, v, false) + self.descent(self.pb()[v] as int) } }
    pub open spec fn path(&self) -> Seq<Sg> { self.ascent(self.meet()) + self.descent(self.meet()) }
    pub open spec fn from(&self) -> int { root(self.pf(), self.meet()) }
    pub open spec fn to(&self) -> int { root(self.pb(), self.meet()) }
    pub open spec fn dist(&self) -> int { if self.meet() == INV() { INF() } else { self.df()[self.meet()] + self.db()[self.meet()] } }
    pub open spec fn has_run(&self, s: Seq<u32>, t: Seq<u32>) -> bool { self.ran(s, t) && !self.metric.val().input_weight.null() && self.c().good(self.w(), self.f(), self.g()) }
    // a walk of input arcs from a source to a target that has the distance
    pub open spec fn path_ok(&self, s: Seq<u32>, t: Seq<u32>, p: Seq<u32>) -> bool {
        &&& 0 <= self.from() < self.c().n() && 0 <= self.to() < self.c().n()
        &&& self.c().walk(ints(p), self.from(), self.to())
        &&& s[self.from()] + wlen(self.w(), ints(p)) + t[self.to()] == self.dist()
    }
    // the arc to v from its predecessor
    pub proof fn lemma_pred_f(&self, s: Seq<u32>, t: Seq<u32>, v: int)
        requires self.has_run(s, t), 0 <= v < self.c().n(), self.df()[v] < INF(),
        ensures self.pf()[v] == INV() ==> self.df()[v] == s[v],
            self.pf()[v] != INV() ==> {
                let u = self.pf()[v] as int; let a = self.c().arcof(u, v);
                &&& 0 <= u < v && self.c().arc(a) && self.c().tl(a) == u && self.c().hd(a) == v && self.df()[v] == self.df()[u] + self.f()[a]
                &&& self.c().up_first_out@[u] <= a < self.c().up_first_out@[u + 1]
            }
    {
        let a = open_wq(&self.c(), self.f(), s, self.df(), self.pf(), v);
        if self.pf()[v] != INV() { self.c().lemma_arcof(a); }
    }
    pub proof fn lemma_pred_b(&self, s: Seq<u32>, t: Seq<u32>, v: int)
        requires self.has_run(s, t), 0 <= v < self.c().n(), self.db()[v] < INF(),
        ensures self.pb()[v] == INV() ==> self.db()[v] == t[v],
            self.pb()[v] != INV() ==> {
                let u = self.pb()[v] as int; let a = self.c().arcof(u, v);
                &&& 0 <= u < v && self.c().arc(a) && self.c().tl(a) == u && self.c().hd(a) == v && self.db()[v] == self.db()[u] + self.g()[a]
                &&& self.c().up_first_out@[u] <= a < self.c().up_first_out@[u + 1]
            }
    {
        let a = open_wq(&self.c(), self.g(), t, self.db(), self.pb(), v);
        if self.pb()[v] != INV() { self.c().lemma_arcof(a); }
    }
    pub proof fn lemma_facts(&self, s: Seq<u32>, t: Seq<u32>)
        requires self.has_run(s, t),
        ensures self.state == 1, !self.cch.null() && !self.metric.null() && !self.metric.val().input_weight.null(), self.pf().len() == self.c().n() && self.pb().len() == self.c().n() && self.df().len() == self.c().n() && self.db().len() == self.c().n(),
            self.c().n() < 0x4000_0000, self.c().up_first_out@.len() == self.c().n() + 1, self.c().order@.len() == self.c().n(), self.c().good(self.w(), self.f(), self.g()) && self.c().bounded(self.f(), self.g()),
            self.meet() == INV() || (self.meet() < self.c().n() && self.df()[self.meet()] < INF() && self.db()[self.meet()] < INF()), (self.dist() == INF()) == (self.meet() == INV()),
    { let r = choose|r: int| #[trigger] best(&self.c(), self.df(), self.db(), self.meet(), r); }
    pub proof fn lemma_find(&self, s: Seq<u32>, t: Seq<u32>, u: int, v: int)
        requires self.has_run(s, t), 0 <= u < self.c().n(), 0 <= v < self.c().n(), self.c().arc(self.c().arcof(u, v)), self.c().tl(self.c().arcof(u, v)) == u, self.c().hd(self.c().arcof(u, v)) == v,
        ensures graph_ok(self.c().up_first_out@, self.c().up_head@), seq_sorted(self.c().up_head@, self.c().up_first_out@[u] as int, self.c().up_first_out@[u + 1] as int), is_arc(self.c().up_first_out@, self.c().up_head@, self.c().arcof(u, v), u, v),
            forall|r: int| #[trigger] is_arc(self.c().up_first_out@, self.c().up_head@, r, u, v) ==> r == self.c().arcof(u, v)
    {
        let c = self.c();
        assert forall|i: int, j: int| c.up_first_out@[u] <= i <= j < c.up_first_out@[u + 1] implies #[trigger] c.up_head@[i] <= #[trigger] c.up_head@[j] by { lemma_range(&c, i, u); lemma_range(&c, j, u); if i < j { assert(c.hd(i) < c.hd(j)); } }
        assert forall|r: int| #[trigger] is_arc(c.up_first_out@, c.up_head@, r, u, v) implies r == c.arcof(u, v) by { lemma_range(&c, r, u); lemma_arc_unique(&c, r, c.arcof(u, v)); }
    }
    pub proof fn lemma_ascent(&self, s: Seq<u32>, t: Seq<u32>, v: int) -> (l: int)
        requires self.has_run(s, t), 0 <= v < self.c().n(), self.df()[v] < INF(),
        ensures self.c().sreal(self.w(), self.f(), self.g(), self.ascent(v), root(self.pf(), v), v, l), 0 <= root(self.pf(), v) < self.c().n(), s[root(self.pf(), v)] + l == self.df()[v]
        decreases v
    {
        self.lemma_pred_f(s, t, v);
        let (c, w, f, g) = (self.c(), self.w(), self.f(), self.g());
        if self.pf()[v] == INV() { c.sreal_none(w, f, g, v); 0 }
        else {
            let u = self.pf()[v] as int; let a = c.arcof(u, v);
            let k = self.lemma_ascent(s, t, u);
            c.lemma_unpc(w, f, g, a, true);
            c.sreal_cat(w, f, g, self.ascent(u), self.un(u, v, true), root(self.pf(), u), u, v, k, f[a] as int);
            k + f[a]
        }
    }
    pub proof fn lemma_descent(&self, s: Seq<u32>, t: Seq<u32>, v: int) -> (l: int)
        requires self.has_run(s, t), 0 <= v < self.c().n(), self.db()[v] < INF(),
        ensures self.c().sreal(self.w(), self.f(), self.g(), self.descent(v), v, root(self.pb(), v), l), 0 <= root(self.pb(), v) < self.c().n(), t[root(self.pb(), v)] + l == self.db()[v]
        decreases v
    {
        self.lemma_pred_b(s, t, v);
        let (c, w, f, g) = (self.c(), self.w(), self.f(), self.g());
        if self.pb()[v] == INV() { c.sreal_none(w, f, g, v); 0 }
        else {
            let u = self.pb()[v] as int; let a = c.arcof(u, v);
            let k = self.lemma_descent(s, t, u);
            c.lemma_unpc(w, f, g, a, false);
            c.sreal_cat(w, f, g, self.un(u, v, false), self.descent(u), v, u, root(self.pb(), v), g[a] as int, k);
            k + g[a]
        }
    }
    pub proof fn lemma_path(&self, s: Seq<u32>, t: Seq<u32>) -> (l: int)
        requires self.has_run(s, t), self.meet() != INV(),
        ensures self.c().swalk(self.path(), self.from(), self.to()), slen(self.f(), self.g(), self.path()) == l, s[self.from()] + l + t[self.to()] == self.dist(), 0 <= self.from() < self.c().n(), 0 <= self.to() < self.c().n(),
            self.meet() < self.c().n(), self.df()[self.meet()] < INF(), self.db()[self.meet()] < INF()
    {
        let m = self.meet();
        let r = choose|r: int| #[trigger] best(&self.c(), self.df(), self.db(), m, r);
        let k = self.lemma_ascent(s, t, m);
        let l = self.lemma_descent(s, t, m);
        self.c().sreal_cat(self.w(), self.f(), self.g(), self.ascent(m), self.descent(m), self.from(), m, self.to(), k, l);
        reveal(CustomizableContractionHierarchy::sreal);
        k + l
    }
    pub proof fn lemma_arc_path(&self, s: Seq<u32>, t: Seq<u32>, p: Seq<u32>)
        requires self.has_run(s, t), self.meet() != INV(), self.c().app_arc(self.w(), self.f(), self.g(), Seq::<u32>::empty(), p, self.path()),
        ensures self.path_ok(s, t, p), p.len() == self.path().len(), forall|i: int| 0 <= i < p.len() ==> self.c().stands_in(self.w(), self.f(), self.g(), self.path()[i], #[trigger] p[i] as int)
    {
        let l = self.lemma_path(s, t);
        reveal(CustomizableContractionHierarchy::app_arc);
        let e = Seq::<u32>::empty(); let q = self.path();
        assert forall|i: int| 0 <= i < q.len() implies self.c().stands_in(self.w(), self.f(), self.g(), #[trigger] q[i], p[i] as int) by { assert(p[e.len() + i] == p[i]); }
        self.c().lemma_arcs(self.w(), self.f(), self.g(), q, p, self.from(), self.to());
        assert forall|i: int| 0 <= i < p.len() implies self.c().stands_in(self.w(), self.f(), self.g(), self.path()[i], #[trigger] p[i] as int) by { let x = q[i]; }
    }
    // the node path: the start of the path, then the end of each segment
    pub proof fn lemma_node_path(&self, s: Seq<u32>, t: Seq<u32>, p: Seq<u32>)
        requires self.has_run(s, t), self.meet() != INV(), self.c().app_node(self.w(), self.f(), self.g(), Seq::<u32>::empty(), p, self.path()),
        ensures self.node_ok(p.push(self.c().order@[self.to()]))
    {
        let l = self.lemma_path(s, t);
        reveal(CustomizableContractionHierarchy::app_node);
        let e = Seq::<u32>::empty(); let q = self.path(); let c = self.c(); let r = p.push(c.order@[self.to()]);
        c.lemma_swalk_at(q, self.from(), self.to());
        assert forall|i: int| 0 <= i < q.len() implies r[i] == c.order@[c.sst(#[trigger] q[i])] && r[i + 1] == c.order@[c.sen(q[i])] by {
            assert(p[e.len() + i] == c.order@[c.sst(q[i])]);
            if i + 1 < q.len() { let x = q[i + 1]; assert(p[e.len() + (i + 1)] == c.order@[c.sst(q[i + 1])]); assert(c.sen(q[i]) == c.sst(q[i + 1])); } else { assert(q[i] == q.last()); }
        }
        if q.len() > 0 { let x = q[0]; assert(r[0] == c.order@[c.sst(q[0])]); }
        else { assert(self.from() == self.to()); }
    }
    // the nodes of the path between its first and its last node
    pub open spec fn node_ok(&self, r: Seq<u32>) -> bool {
        &&& r.len() == self.path().len() + 1 && r[0] == self.c().order@[self.from()] && r.last() == self.c().order@[self.to()]
        &&& forall|i: int| 0 <= i < self.path().len() ==> r[i] == self.c().order@[self.c().sst(#[trigger] self.path()[i])] && r[i + 1] == self.c().order@[self.c().sen(self.path()[i])]
    }
}
// the nodes up climbed from m
pub open spec fn chain(d: Seq<u32>, pred: Seq<u32>, up: Seq<u32>, m: int) -> bool {
    &&& up.len() >= 1 && up[0] == m
    &&& forall|k: int| 0 <= k < up.len() ==> (#[trigger] up[k]) < d.len() && d[up[k] as int] < INF()
    &&& forall|k: int| 0 < k < up.len() ==> pred[up[k - 1] as int] == (#[trigger] up[k]) && up[k] < up[k - 1]
}
pub proof fn lemma_chain(d: Seq<u32>, pred: Seq<u32>, up: Seq<u32>, m: int, k: int)
    requires chain(d, pred, up, m), 0 <= k < up.len(),
    ensures root(pred, m) == root(pred, up[k] as int)
    decreases k
{ if k > 0 { lemma_chain(d, pred, up, m, k - 1); let x = up[k]; } }
