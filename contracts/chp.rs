// ---- unpacking: what the arcs of the hierarchy stand for
// the input graph
pub struct In { pub tail: Seq<u32>, pub head: Seq<u32>, pub wt: Seq<u32> }
pub open spec fn iwalk(g: In, p: Seq<u32>, u: int, v: int) -> bool
    decreases p.len()
{ if p.len() == 0 { u == v } else { p[0] < g.tail.len() && g.tail[p[0] as int] == u && iwalk(g, p.drop_first(), g.head[p[0] as int] as int, v) } }
pub open spec fn ilen(g: In, p: Seq<u32>) -> int
    decreases p.len()
{ if p.len() == 0 { 0 } else { g.wt[p[0] as int] + ilen(g, p.drop_first()) } }
// an input arc and its head, as they are reported
pub struct Seg { pub a: u32, pub v: u32 }
pub open spec fn arcs(p: Seq<Seg>) -> Seq<u32> { Seq::new(p.len(), |i: int| p[i].a) }
pub open spec fn nodes(p: Seq<Seg>) -> Seq<u32> { Seq::new(p.len(), |i: int| p[i].v) }
// the segments are a walk of g from u to v of length l that reports its nodes
#[verifier::opaque]
pub open spec fn real(g: In, p: Seq<Seg>, u: int, v: int, l: int) -> bool {
    &&& iwalk(g, arcs(p), u, v) && ilen(g, arcs(p)) == l
    &&& forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).a < g.head.len() && p[i].v == g.head[p[i].a as int]
}
pub proof fn real_none(g: In, u: int)
    ensures real(g, Seq::<Seg>::empty(), u, u, 0)
{ reveal(real); assert(arcs(Seq::<Seg>::empty()).len() == 0); }
pub proof fn real_one(g: In, a: u32, v: u32)
    requires a < g.tail.len(), g.tail.len() == g.head.len(), v == g.head[a as int],
    ensures real(g, seq![Seg { a, v }], g.tail[a as int] as int, v as int, g.wt[a as int] as int)
{
    reveal(real);
    let p = seq![Seg { a, v }];
    assert(arcs(p)[0] == a);
    assert(arcs(p).drop_first().len() == 0);
    assert(iwalk(g, arcs(p).drop_first(), v as int, v as int));
    assert(ilen(g, arcs(p).drop_first()) == 0);
}
pub proof fn lemma_iwalk_cat(g: In, p: Seq<u32>, q: Seq<u32>, u: int, x: int, v: int)
    requires iwalk(g, p, u, x), iwalk(g, q, x, v),
    ensures iwalk(g, p + q, u, v), ilen(g, p + q) == ilen(g, p) + ilen(g, q)
    decreases p.len()
{
    if p.len() == 0 { assert(p + q =~= q); }
    else {
        assert((p + q).drop_first() =~= p.drop_first() + q); assert((p + q)[0] == p[0]);
        lemma_iwalk_cat(g, p.drop_first(), q, g.head[p[0] as int] as int, x, v);
    }
}
pub proof fn real_cat(g: In, p: Seq<Seg>, q: Seq<Seg>, u: int, x: int, v: int, k: int, l: int)
    requires real(g, p, u, x, k), real(g, q, x, v, l),
    ensures real(g, p + q, u, v, k + l)
{
    reveal(real);
    assert(arcs(p + q) =~= arcs(p) + arcs(q));
    lemma_iwalk_cat(g, arcs(p), arcs(q), u, x, v);
    assert forall|i: int| 0 <= i < (p + q).len() implies (#[trigger] (p + q)[i]).a < g.head.len() && (p + q)[i].v == g.head[(p + q)[i].a as int] by {
        if i < p.len() { assert((p + q)[i] == p[i]); } else { assert((p + q)[i] == q[i - p.len()]); }
    }
}
impl Side {
    pub open spec fn orig(&self, a: int) -> bool { self.is_shortcut_an_original_arc.get(a) }
    pub open spec fn fst(&self, a: int) -> int { self.shortcut_first_arc@[a] as int }
    pub open spec fn snd(&self, a: int) -> int { self.shortcut_second_arc@[a] as int }
    pub open spec fn seg(&self, a: int) -> Seq<Seg> { seq![Seg { a: self.shortcut_first_arc@[a], v: self.shortcut_second_arc@[a] }] }
    pub open spec fn sized(&self) -> bool { self.shortcut_first_arc@.len() == self.head@.len() && self.shortcut_second_arc@.len() == self.head@.len() && self.is_shortcut_an_original_arc.size_ == self.head@.len() && self.is_shortcut_an_original_arc.room() }
}
impl ContractionHierarchy {
    // z is below v and a goes from u over z to x
    pub open spec fn over(&self, s: &Side, v: int, a: int, z: int) -> bool { 0 <= z < v && self.h().b.arc(z, s.fst(a)) && self.h().f.arc(z, s.snd(a)) }
    pub open spec fn via(&self, s: &Side, v: int, a: int) -> int { choose|z: int| #[trigger] self.over(s, v, a, z) }
    // what the arc a of s at node v stands for
    pub open spec fn unp(&self, s: &Side, v: int, a: int) -> Seq<Seg>
        decreases v
    {
        if s.orig(a) { s.seg(a) }
        else if !self.over(s, v, a, self.via(s, v, a)) { Seq::empty() }
        else { self.unp(&self.backward, self.via(s, v, a), s.fst(a)) + self.unp(&self.forward, self.via(s, v, a), s.snd(a)) }
    }
    // the arc a from u to x of weight w found at node v
    pub open spec fn stands(&self, g: In, s: &Side, v: int, a: int, u: int, x: int, w: int) -> bool {
        if s.orig(a) { s.fst(a) < g.tail.len() && g.tail[s.fst(a)] == self.order@[u] && g.head[s.fst(a)] == self.order@[x] && s.snd(a) == self.order@[x] && g.wt[s.fst(a)] == w }
        else {
            let z = self.via(s, v, a);
            self.over(s, v, a, z) && self.backward.head@[s.fst(a)] == u && self.forward.head@[s.snd(a)] == x && self.backward.weight@[s.fst(a)] + self.forward.weight@[s.snd(a)] == w
        }
    }
    #[verifier::opaque]
    pub open spec fn stand(&self, g: In) -> bool {
        &&& g.tail.len() == g.head.len() && g.wt.len() == g.head.len() && self.forward.sized() && self.backward.sized()
        &&& forall|v: int, a: int| #[trigger] self.h().f.arc(v, a) ==> self.stands(g, &self.forward, v, a, v, self.forward.head@[a] as int, self.forward.weight@[a] as int)
        &&& forall|v: int, a: int| #[trigger] self.h().b.arc(v, a) ==> self.stands(g, &self.backward, v, a, self.backward.head@[a] as int, v, self.backward.weight@[a] as int)
    }
    pub proof fn stand_fwd(&self, g: In, v: int, a: int)
        requires self.stand(g), self.h().f.arc(v, a),
        ensures self.stands(g, &self.forward, v, a, v, self.forward.head@[a] as int, self.forward.weight@[a] as int)
    { reveal(ContractionHierarchy::stand); }
    pub proof fn stand_bwd(&self, g: In, v: int, a: int)
        requires self.stand(g), self.h().b.arc(v, a),
        ensures self.stands(g, &self.backward, v, a, self.backward.head@[a] as int, v, self.backward.weight@[a] as int)
    { reveal(ContractionHierarchy::stand); }
    pub proof fn stand_size(&self, g: In)
        requires self.stand(g),
        ensures self.forward.sized(), self.backward.sized(), g.tail.len() == g.head.len()
    { reveal(ContractionHierarchy::stand); }
    pub proof fn lemma_unp_fwd(&self, g: In, v: int, a: int)
        requires self.stand(g), self.h().f.arc(v, a),
        ensures real(g, self.unp(&self.forward, v, a), self.order@[v] as int, self.order@[self.forward.head@[a] as int] as int, self.forward.weight@[a] as int)
        decreases v
    {
        self.stand_size(g); self.stand_fwd(g, v, a);
        let s = &self.forward;
        if s.orig(a) { real_one(g, s.shortcut_first_arc@[a], s.shortcut_second_arc@[a]); }
        else {
            let z = self.via(s, v, a);
            self.lemma_unp_bwd(g, z, s.fst(a)); self.lemma_unp_fwd(g, z, s.snd(a));
            real_cat(g, self.unp(&self.backward, z, s.fst(a)), self.unp(&self.forward, z, s.snd(a)), self.order@[v] as int, self.order@[z] as int, self.order@[s.head@[a] as int] as int, self.backward.weight@[s.fst(a)] as int, self.forward.weight@[s.snd(a)] as int);
        }
    }
    pub proof fn lemma_unp_bwd(&self, g: In, v: int, a: int)
        requires self.stand(g), self.h().b.arc(v, a),
        ensures real(g, self.unp(&self.backward, v, a), self.order@[self.backward.head@[a] as int] as int, self.order@[v] as int, self.backward.weight@[a] as int)
        decreases v
    {
        self.stand_size(g); self.stand_bwd(g, v, a);
        let s = &self.backward;
        if s.orig(a) { real_one(g, s.shortcut_first_arc@[a], s.shortcut_second_arc@[a]); }
        else {
            let z = self.via(s, v, a);
            self.lemma_unp_bwd(g, z, s.fst(a)); self.lemma_unp_fwd(g, z, s.snd(a));
            real_cat(g, self.unp(&self.backward, z, s.fst(a)), self.unp(&self.forward, z, s.snd(a)), self.order@[s.head@[a] as int] as int, self.order@[z] as int, self.order@[v] as int, self.backward.weight@[s.fst(a)] as int, self.forward.weight@[s.snd(a)] as int);
        }
    }
}
// ---- the path of a query
// where the predecessors of v lead
pub open spec fn root(s: S, v: int) -> int
    decreases v
{ if s.pn[v] == INV() || !(0 <= s.pn[v] < v) { v } else { root(s, s.pn[v] as int) } }
impl ContractionHierarchyQuery {
    // the way from the root of v up to v, and down from v to its root
    pub open spec fn ascent(&self, v: int) -> Seq<Seg>
        decreases v
    { let s = self.f(); if s.pn[v] == INV() || !(0 <= s.pn[v] < v) { Seq::empty() } else { self.ascent(s.pn[v] as int) + self.c().unp(&self.c().forward, s.pn[v] as int, s.pa[v] as int) } }
    pub open spec fn descent(&self, v: int) -> Seq<Seg>
        decreases v
    { let s = self.b(); if s.pn[v] == INV() || !(0 <= s.pn[v] < v) { Seq::empty() } else { self.c().unp(&self.c().backward, s.pn[v] as int, s.pa[v] as int) + self.descent(s.pn[v] as int) } }
    pub open spec fn meet(&self) -> int { self.shortest_path_meeting_node as int }
    pub open spec fn path(&self) -> Seq<Seg> { self.ascent(self.meet()) + self.descent(self.meet()) }
    pub open spec fn from(&self) -> int { self.c().order@[root(self.f(), self.meet())] as int }
    pub open spec fn to(&self) -> int { self.c().order@[root(self.b(), self.meet())] as int }
    // a walk of the input graph between a source and a target that explains the distance
    pub open spec fn path_ok(&self, g: In, src: Map<int, int>, tgt: Map<int, int>, p: Seq<u32>) -> bool {
        let s = self.c().rank@[self.from()] as int; let t = self.c().rank@[self.to()] as int;
        &&& 0 <= self.from() < self.n() && 0 <= self.to() < self.n() && src.contains_key(s) && tgt.contains_key(t)
        &&& iwalk(g, p, self.from(), self.to())
        &&& src[s] + ilen(g, p) + tgt[t] == self.dist()
    }
    pub proof fn lemma_ascent(&self, g: In, src: Map<int, int>, tgt: Map<int, int>, v: int) -> (l: int)
        requires self.ran(src, tgt), self.c().stand(g), self.f().pu(v),
        ensures real(g, self.ascent(v), self.c().order@[root(self.f(), v)] as int, self.c().order@[v] as int, l), src.contains_key(root(self.f(), v)), src[root(self.f(), v)] + l == self.f().td[v], 0 <= root(self.f(), v) < self.n()
        decreases v
    {
        let s = self.f(); let h = self.h();
        assert(s.wit(h.f, src, v)) by { reveal(S::inv_but); }
        lemma_parts(&s, h, self.n(), src, true, -1);
        if s.pn[v] == INV() { real_none(g, self.c().order@[v] as int); 0 }
        else {
            let u = s.pn[v] as int; let a = s.pa[v] as int;
            assert(s.po(u));
            let k = self.lemma_ascent(g, src, tgt, u);
            self.c().lemma_unp_fwd(g, u, a);
            real_cat(g, self.ascent(u), self.c().unp(&self.c().forward, u, a), self.c().order@[root(s, v)] as int, self.c().order@[u] as int, self.c().order@[v] as int, k, h.f.wt[a] as int);
            k + h.f.wt[a]
        }
    }
    pub proof fn lemma_descent(&self, g: In, src: Map<int, int>, tgt: Map<int, int>, v: int) -> (l: int)
        requires self.ran(src, tgt), self.c().stand(g), self.b().pu(v),
        ensures real(g, self.descent(v), self.c().order@[v] as int, self.c().order@[root(self.b(), v)] as int, l), tgt.contains_key(root(self.b(), v)), tgt[root(self.b(), v)] + l == self.b().td[v], 0 <= root(self.b(), v) < self.n()
        decreases v
    {
        let s = self.b(); let h = self.h();
        assert(s.wit(h.b, tgt, v)) by { reveal(S::inv_but); }
        lemma_parts(&s, rev(h), self.n(), tgt, true, -1);
        if s.pn[v] == INV() { real_none(g, self.c().order@[v] as int); 0 }
        else {
            let u = s.pn[v] as int; let a = s.pa[v] as int;
            assert(s.po(u));
            let k = self.lemma_descent(g, src, tgt, u);
            self.c().lemma_unp_bwd(g, u, a);
            real_cat(g, self.c().unp(&self.c().backward, u, a), self.descent(u), self.c().order@[v] as int, self.c().order@[u] as int, self.c().order@[root(s, v)] as int, h.b.wt[a] as int, k);
            k + h.b.wt[a]
        }
    }
    pub proof fn lemma_path(&self, g: In, src: Map<int, int>, tgt: Map<int, int>)
        requires self.ran(src, tgt), self.c().stand(g), self.meet() != INV(),
        ensures self.path_ok(g, src, tgt, arcs(self.path())), forall|i: int| 0 <= i < self.path().len() ==> #[trigger] nodes(self.path())[i] == g.head[arcs(self.path())[i] as int]
    {
        let m = self.meet();
        let k = self.lemma_ascent(g, src, tgt, m);
        let l = self.lemma_descent(g, src, tgt, m);
        real_cat(g, self.ascent(m), self.descent(m), self.from(), self.c().order@[m] as int, self.to(), k, l);
        reveal(real);
        assert forall|i: int| 0 <= i < self.path().len() implies #[trigger] nodes(self.path())[i] == g.head[arcs(self.path())[i] as int] by { assert(self.path()[i].a < g.head.len()); }
    }
}
// the nodes ns climbed from m, over the arcs up
pub open spec fn chain(s: S, ns: Seq<int>, up: Seq<u32>, m: int) -> bool {
    &&& ns.len() == up.len() + 1 && ns[0] == m
    &&& forall|k: int| 0 <= k < up.len() ==> s.pu(#[trigger] ns[k]) && s.pn[ns[k]] != INV() && s.pn[ns[k]] < ns[k] && up[k] == s.pa[ns[k]] && ns[k + 1] == s.pn[ns[k]]
}
impl ContractionHierarchyQuery {
    pub proof fn lemma_chain_root(&self, ns: Seq<int>, up: Seq<u32>, m: int)
        requires chain(self.f(), ns, up, m), self.f().pn[ns.last()] == INV(),
        ensures root(self.f(), m) == ns.last(), self.ascent(ns.last()).len() == 0
    { self.lemma_chain(ns, up, m, up.len() as int); }
    pub proof fn lemma_chain(&self, ns: Seq<int>, up: Seq<u32>, m: int, k: int)
        requires chain(self.f(), ns, up, m), 0 <= k <= up.len(),
        ensures root(self.f(), m) == root(self.f(), ns[k])
        decreases k
    { if k > 0 { self.lemma_chain(ns, up, m, k - 1); assert(self.f().pu(ns[k - 1])); } }
}
