// an arbitrary pure combination function
pub uninterp spec fn lnk(l: u32, r: u32) -> u32;
#[verifier::external_body]
pub fn lnk_exec(l: u32, r: u32) -> (res: u32) ensures res == lnk(l, r) { unimplemented!() }
#[verifier::opaque]
pub open spec fn assoc() -> bool { forall|a: u32, b: u32, c: u32| #[trigger] lnk(lnk(a, b), c) == lnk(a, lnk(b, c)) }
// the extra weights w combined along the arcs p, in this order
pub open spec fn comb(w: Seq<u32>, p: Seq<u32>) -> u32
    decreases p.len()
{ if p.len() == 0 { 0 } else if p.len() == 1 { w[p[0] as int] } else { lnk(comb(w, p.drop_last()), w[p.last() as int]) } }
pub proof fn comb_cat(w: Seq<u32>, p: Seq<u32>, q: Seq<u32>)
    requires assoc(), p.len() > 0, q.len() > 0,
    ensures comb(w, p + q) == lnk(comb(w, p), comb(w, q))
    decreases q.len()
{
    assert((p + q).drop_last() =~= p + q.drop_last());
    assert((p + q).last() == q.last());
    if q.len() == 1 { assert(q.drop_last() =~= Seq::<u32>::empty()); assert(p + q.drop_last() =~= p); }
    else { comb_cat(w, p, q.drop_last()); reveal(assoc); }
}
pub open spec fn xw(w: Seq<u32>, p: Seq<Seg>) -> u32 { comb(w, arcs(p)) }
pub proof fn xw_cat(w: Seq<u32>, p: Seq<Seg>, q: Seq<Seg>)
    requires assoc(), p.len() > 0, q.len() > 0,
    ensures xw(w, p + q) == lnk(xw(w, p), xw(w, q))
{ assert(arcs(p + q) =~= arcs(p) + arcs(q)); comb_cat(w, arcs(p), arcs(q)); }
pub proof fn xw_none(w: Seq<u32>, p: Seq<Seg>, q: Seq<Seg>)
    requires p.len() == 0 || q.len() == 0,
    ensures p.len() == 0 ==> xw(w, p + q) == xw(w, q), q.len() == 0 ==> xw(w, p + q) == xw(w, p)
{ if p.len() == 0 { assert(p + q =~= q); } if q.len() == 0 { assert(p + q =~= p); } }
impl ContractionHierarchy {
    pub proof fn unp_some_fwd(&self, g: In, v: int, a: int)
        requires self.stand(g), self.h().f.arc(v, a),
        ensures self.unp(&self.forward, v, a).len() > 0
        decreases v
    { self.stand_fwd(g, v, a); let s = &self.forward; if !s.orig(a) { self.unp_some_bwd(g, self.via(s, v, a), s.fst(a)); } }
    pub proof fn unp_some_bwd(&self, g: In, v: int, a: int)
        requires self.stand(g), self.h().b.arc(v, a),
        ensures self.unp(&self.backward, v, a).len() > 0
        decreases v
    { self.stand_bwd(g, v, a); let s = &self.backward; if !s.orig(a) { self.unp_some_bwd(g, self.via(s, v, a), s.fst(a)); } }
    // what the extra weight of an arc has to be
    pub open spec fn xf(&self, w: Seq<u32>, v: int, a: int) -> u32 { xw(w, self.unp(&self.forward, v, a)) }
    pub open spec fn xb(&self, w: Seq<u32>, v: int, a: int) -> u32 { xw(w, self.unp(&self.backward, v, a)) }
    pub proof fn lemma_x(&self, g: In, w: Seq<u32>, f: bool, v: int, a: int)
        requires assoc(), self.stand(g), hwf(self.h(), self.n()), f ==> self.h().f.arc(v, a), !f ==> self.h().b.arc(v, a), w.len() == g.tail.len(),
        ensures self.forward.sized(), self.backward.sized(), 0 <= a,
            f ==> a < self.forward.head@.len(), !f ==> a < self.backward.head@.len(),
            f && self.forward.orig(a) ==> self.forward.fst(a) < w.len() && self.xf(w, v, a) == w[self.forward.fst(a)],
            !f && self.backward.orig(a) ==> self.backward.fst(a) < w.len() && self.xb(w, v, a) == w[self.backward.fst(a)],
            f && !self.forward.orig(a) ==> { let z = self.via(&self.forward, v, a); self.over(&self.forward, v, a, z) && self.forward.snd(a) < self.forward.head@.len() && self.forward.fst(a) < self.backward.head@.len() && self.xf(w, v, a) == lnk(self.xb(w, z, self.forward.fst(a)), self.xf(w, z, self.forward.snd(a))) },
            !f && !self.backward.orig(a) ==> { let z = self.via(&self.backward, v, a); self.over(&self.backward, v, a, z) && self.backward.snd(a) < self.forward.head@.len() && self.backward.fst(a) < self.backward.head@.len() && self.xb(w, v, a) == lnk(self.xb(w, z, self.backward.fst(a)), self.xf(w, z, self.backward.snd(a))) },
    {
        let s = if f { &self.forward } else { &self.backward };
        self.stand_size(g);
        if f { self.stand_fwd(g, v, a); assert(self.h().f.fo[v + 1] <= self.h().f.fo[self.n()]); } else { self.stand_bwd(g, v, a); assert(self.h().b.fo[v + 1] <= self.h().b.fo[self.n()]); }
        if s.orig(a) { assert(arcs(s.seg(a)) =~= seq![s.shortcut_first_arc@[a]]); }
        else {
            let z = self.via(s, v, a);
            assert(self.h().f.fo[z + 1] <= self.h().f.fo[self.n()]); assert(self.h().b.fo[z + 1] <= self.h().b.fo[self.n()]);
            self.unp_some_bwd(g, z, s.fst(a)); self.unp_some_fwd(g, z, s.snd(a));
            xw_cat(w, self.unp(&self.backward, z, s.fst(a)), self.unp(&self.forward, z, s.snd(a)));
        }
    }
}
