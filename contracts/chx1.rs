// the extra weights of the input arcs are passed
pub open spec fn given(e: Vec<u32>, c: ContractionHierarchy, w: Seq<u32>) -> bool { e@ == w }
impl<'a> ShortcutWeights<'a> {
    pub open spec fn holds(&self, c: ContractionHierarchy, w: Seq<u32>, g: In) -> bool {
        *self.ch == c && self.input_weight@ == w && assoc() && hwf(c.h(), c.n()) && c.stand(g) && w.len() == g.tail.len()
    }
    pub proof fn lemma_get(&self, c: ContractionHierarchy, w: Seq<u32>, g: In, f: bool, v: int, a: int)
        requires self.holds(c, w, g), f ==> c.h().f.arc(v, a), !f ==> c.h().b.arc(v, a),
        ensures c.forward.sized(), c.backward.sized(), 0 <= a,
            f ==> a < c.forward.head@.len(), !f ==> a < c.backward.head@.len(),
            f && c.forward.orig(a) ==> c.forward.fst(a) < w.len() && c.xf(w, v, a) == w[c.forward.fst(a)],
            !f && c.backward.orig(a) ==> c.backward.fst(a) < w.len() && c.xb(w, v, a) == w[c.backward.fst(a)],
            f && !c.forward.orig(a) ==> { let z = c.via(&c.forward, v, a); c.over(&c.forward, v, a, z) && c.forward.snd(a) < c.forward.head@.len() && c.forward.fst(a) < c.backward.head@.len() && c.xf(w, v, a) == lnk(c.xb(w, z, c.forward.fst(a)), c.xf(w, z, c.forward.snd(a))) },
            !f && !c.backward.orig(a) ==> { let z = c.via(&c.backward, v, a); c.over(&c.backward, v, a, z) && c.backward.snd(a) < c.forward.head@.len() && c.backward.fst(a) < c.backward.head@.len() && c.xb(w, v, a) == lnk(c.xb(w, z, c.backward.fst(a)), c.xf(w, z, c.backward.snd(a))) },
    { c.lemma_x(g, w, f, v, a); }
}
