// the extra weights of the arcs of the hierarchy are computed beforehand
pub open spec fn given(e: ContractionHierarchyExtraWeight, c: ContractionHierarchy, w: Seq<u32>) -> bool {
    &&& e.forward_weight@.len() == c.forward.head@.len() && e.backward_weight@.len() == c.backward.head@.len()
    &&& forall|v: int, a: int| #[trigger] c.h().f.arc(v, a) ==> e.forward_weight@[a] == c.xf(w, v, a)
    &&& forall|v: int, a: int| #[trigger] c.h().b.arc(v, a) ==> e.backward_weight@[a] == c.xb(w, v, a)
}
impl<'a> ShortcutWeights<'a> {
    pub open spec fn holds(&self, c: ContractionHierarchy, w: Seq<u32>, g: In) -> bool { given(*self.extra_weight, c, w) && hwf(c.h(), c.n()) && c.stand(g) && assoc() && w.len() == g.tail.len() }
    pub proof fn lemma_get(&self, c: ContractionHierarchy, w: Seq<u32>, g: In, f: bool, v: int, a: int)
        requires self.holds(c, w, g), f ==> c.h().f.arc(v, a), !f ==> c.h().b.arc(v, a),
        ensures 0 <= a, f ==> a < c.forward.head@.len(), !f ==> a < c.backward.head@.len(),
    { c.lemma_x(g, w, f, v, a); }
}
// the nodes below x, the forward arcs of x before a and the backward arcs of x before b are done
#[verifier::opaque]
pub open spec fn upto(e: ContractionHierarchyExtraWeight, c: ContractionHierarchy, w: Seq<u32>, x: int, a: int, b: int) -> bool {
    &&& e.forward_weight@.len() == c.forward.head@.len() && e.backward_weight@.len() == c.backward.head@.len()
    &&& forall|v: int, k: int| #[trigger] c.h().f.arc(v, k) && (v < x || v == x && k < a) ==> e.forward_weight@[k] == c.xf(w, v, k)
    &&& forall|v: int, k: int| #[trigger] c.h().b.arc(v, k) && (v < x || v == x && k < b) ==> e.backward_weight@[k] == c.xb(w, v, k)
}
pub proof fn upto_start(e: ContractionHierarchyExtraWeight, c: ContractionHierarchy, w: Seq<u32>)
    requires e.forward_weight@.len() == c.forward.head@.len(), e.backward_weight@.len() == c.backward.head@.len(),
    ensures upto(e, c, w, 0, c.h().f.fo[0] as int, c.h().b.fo[0] as int)
{ reveal(upto); }
pub proof fn upto_size(e: ContractionHierarchyExtraWeight, c: ContractionHierarchy, w: Seq<u32>, x: int, a: int, b: int)
    requires upto(e, c, w, x, a, b),
    ensures e.forward_weight@.len() == c.forward.head@.len(), e.backward_weight@.len() == c.backward.head@.len()
{ reveal(upto); }
pub proof fn upto_facts(c: ContractionHierarchy)
    requires hwf(c.h(), c.n()),
    ensures c.rank@.len() < 0x4000_0000, c.forward.weight@.len() == c.forward.head@.len(), c.backward.weight@.len() == c.backward.head@.len()
{}
pub proof fn upto_range(c: ContractionHierarchy, x: int)
    requires hwf(c.h(), c.n()), 0 <= x < c.n(),
    ensures c.h().f.fo.len() == c.n() + 1, c.h().b.fo.len() == c.n() + 1, 0 <= c.h().f.fo[x] <= c.h().f.fo[x + 1] <= c.forward.head@.len(), 0 <= c.h().b.fo[x] <= c.h().b.fo[x + 1] <= c.backward.head@.len()
{ assert(c.h().f.fo[x + 1] <= c.h().f.fo[c.n()]); assert(c.h().b.fo[x + 1] <= c.h().b.fo[c.n()]); }
// the arc a of x is next
pub proof fn upto_use(e: ContractionHierarchyExtraWeight, c: ContractionHierarchy, g: In, w: Seq<u32>, x: int, p: int, q: int, f: bool, a: int)
    requires upto(e, c, w, x, p, q), hwf(c.h(), c.n()), c.stand(g), assoc(), w.len() == g.tail.len(), f ==> c.h().f.arc(x, a), !f ==> c.h().b.arc(x, a),
    ensures c.forward.sized(), c.backward.sized(), 0 <= a, f ==> a < c.forward.head@.len(), !f ==> a < c.backward.head@.len(),
        e.forward_weight@.len() == c.forward.head@.len(), e.backward_weight@.len() == c.backward.head@.len(),
        ({ let s = if f { c.forward } else { c.backward }; let v = if f { c.xf(w, x, a) } else { c.xb(w, x, a) };
            if s.orig(a) { s.fst(a) < w.len() && v == w[s.fst(a)] }
            else { s.fst(a) < e.backward_weight@.len() && s.snd(a) < e.forward_weight@.len() && v == lnk(e.backward_weight@[s.fst(a)], e.forward_weight@[s.snd(a)]) } }),
{
    reveal(upto);
    c.lemma_x(g, w, f, x, a);
    let s = if f { c.forward } else { c.backward };
    if !s.orig(a) { let z = c.via(&s, x, a); assert(c.over(&s, x, a, z)); assert(z < x); assert(c.h().b.arc(z, s.fst(a))); assert(c.h().f.arc(z, s.snd(a))); }
}
pub proof fn upto_step(e: ContractionHierarchyExtraWeight, c: ContractionHierarchy, w: Seq<u32>, x: int, p: int, q: int, f: bool, d: ContractionHierarchyExtraWeight)
    requires upto(e, c, w, x, p, q), hwf(c.h(), c.n()),
        f ==> c.h().f.arc(x, p) && d.backward_weight@ == e.backward_weight@ && d.forward_weight@ == e.forward_weight@.update(p, c.xf(w, x, p)),
        !f ==> c.h().b.arc(x, q) && d.forward_weight@ == e.forward_weight@ && d.backward_weight@ == e.backward_weight@.update(q, c.xb(w, x, q)),
    ensures f ==> upto(d, c, w, x, p + 1, q), !f ==> upto(d, c, w, x, p, q + 1)
{
    reveal(upto);
    if f {
        assert forall|v: int, k: int| #[trigger] c.h().f.arc(v, k) && (v < x || v == x && k < p + 1) implies d.forward_weight@[k] == c.xf(w, v, k) by { assert(c.h().f.fo[v + 1] <= c.h().f.fo[c.n()]); if v < x { assert(c.h().f.fo[v + 1] <= c.h().f.fo[x]); } }
    } else {
        assert forall|v: int, k: int| #[trigger] c.h().b.arc(v, k) && (v < x || v == x && k < q + 1) implies d.backward_weight@[k] == c.xb(w, v, k) by { assert(c.h().b.fo[v + 1] <= c.h().b.fo[c.n()]); if v < x { assert(c.h().b.fo[v + 1] <= c.h().b.fo[x]); } }
    }
}
pub proof fn upto_next(e: ContractionHierarchyExtraWeight, c: ContractionHierarchy, w: Seq<u32>, x: int)
    requires upto(e, c, w, x, c.h().f.fo[x + 1] as int, c.h().b.fo[x + 1] as int), hwf(c.h(), c.n()), 0 <= x < c.n(),
    ensures upto(e, c, w, x + 1, c.h().f.fo[x + 1] as int, c.h().b.fo[x + 1] as int)
{ reveal(upto); }
pub proof fn upto_all(e: ContractionHierarchyExtraWeight, c: ContractionHierarchy, w: Seq<u32>)
    requires upto(e, c, w, c.n(), c.h().f.fo[c.n()] as int, c.h().b.fo[c.n()] as int), hwf(c.h(), c.n()),
    ensures given(e, c, w)
{ reveal(upto); }
