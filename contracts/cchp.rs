
impl CustomizableContractionHierarchyPartialCustomization {
    pub open spec fn c(&self) -> CCH { self.cch.val() }
    pub open spec fn shape(&self) -> bool { !self.cch.null() && self.c().wf() && wf(self.q) && self.q.max_number_of_ids == self.c().m() }
}
impl CustomizableContractionHierarchy {
    pub open spec fn local_except(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, q: IDSetMinQueue) -> bool {
        forall|t: int| #[trigger] self.arc(t) ==> self.local(w, f, g, t) || has(q, t)
    }
}

impl CustomizableContractionHierarchy {
    // the top arc u of the triangle (b, t, u) is queued unless the change of t cannot matter to it
    pub open spec fn ok_mid(&self, f0: Seq<u32>, g0: Seq<u32>, f: Seq<u32>, g: Seq<u32>, q: IDSetMinQueue, t: int, b: int, u: int) -> bool {
        has(q, u) || (g[b] + f0[t] != f[u] && f[b] + g0[t] != g[u] && g[b] + f[t] >= f[u] && f[b] + g[t] >= g[u])
    }
    pub open spec fn ok_bot(&self, f0: Seq<u32>, g0: Seq<u32>, f: Seq<u32>, g: Seq<u32>, q: IDSetMinQueue, t: int, m: int, u: int) -> bool {
        has(q, u) || (f[m] + g0[t] != f[u] && g[m] + f0[t] != g[u] && f[m] + g[t] >= f[u] && g[m] + f[t] >= g[u])
    }
    pub open spec fn in_up(&self, a: int, x: int) -> bool { self.up_first_out@[x] <= a < self.up_first_out@[x + 1] }
}
pub proof fn lemma_down_of(c: &CCH, a: int) -> (d: int)
    requires c.wf_down(), c.arc(a),
    ensures c.down(d, c.hd(a)), c.down_to_up@[d] == a, c.down_head@[d] == c.tl(a)
{ choose|d: int| #[trigger] c.down(d, c.hd(a)) && c.down_to_up@[d] == a }
pub proof fn lemma_down_range(c: &CCH, d: int, x: int)
    requires c.wf_down(), c.down(d, x),
    ensures 0 <= d < c.m(), c.arc(c.down_to_up@[d] as int), c.hd(c.down_to_up@[d] as int) == x, c.tl(c.down_to_up@[d] as int) == c.down_head@[d]
{ assert(c.down_first_out@[x + 1] <= c.down_first_out@[c.n()]); }
pub proof fn lemma_partial(c: &CCH, w: Seq<u32>, f0: Seq<u32>, g0: Seq<u32>, f: Seq<u32>, g: Seq<u32>, t: int, q: IDSetMinQueue)
    requires c.wf(), c.arc(t), f0.len() == c.m(), g0.len() == c.m(), f == f0.update(t, f[t]), g == g0.update(t, g[t]), c.local(w, f, g, t),
        forall|u: int| #[trigger] c.arc(u) && u != t ==> c.local(w, f0, g0, u) || has(q, u),
        (f[t] == f0[t] && g[t] == g0[t]) || ((forall|b: int, u: int| #[trigger] c.tri(b, t, u) ==> c.ok_mid(f0, g0, f, g, q, t, b, u))
            && (forall|m: int, u: int| #[trigger] c.tri(t, m, u) ==> c.ok_bot(f0, g0, f, g, q, t, m, u))),
    ensures c.local_except(w, f, g, q)
{
    if f[t] == f0[t] && g[t] == g0[t] { assert(f =~= f0); assert(g =~= g0); }
    else {
        assert forall|u: int| #[trigger] c.arc(u) implies c.local(w, f, g, u) || has(q, u) by {
            if u != t && !(has(q, u)) {
                assert(c.local(w, f0, g0, u));
                assert forall|b: int, m: int| #[trigger] c.tri(b, m, u) implies c.le_tri(f, g, b, m, u) by {
                    lemma_lower(c, b, m, u);
                    assert(c.le_tri(f0, g0, b, m, u));
                    if b == t { assert(c.ok_bot(f0, g0, f, g, q, t, m, u)); }
                    if m == t { assert(c.ok_mid(f0, g0, f, g, q, t, b, u)); }
                }
                if f[u] == c.initf(w, u) { intro_witf(c, w, f, g, 0, 0, u); } else {
                    let (b, m) = open_witf(c, w, f0, g0, u); lemma_lower(c, b, m, u);
                    if b == t { assert(c.ok_bot(f0, g0, f, g, q, t, m, u)); }
                    if m == t { assert(c.ok_mid(f0, g0, f, g, q, t, b, u)); }
                    intro_witf(c, w, f, g, b, m, u);
                }
                if g[u] == c.initb(w, u) { intro_witb(c, w, f, g, 0, 0, u); } else {
                    let (b, m) = open_witb(c, w, f0, g0, u); lemma_lower(c, b, m, u);
                    if b == t { assert(c.ok_bot(f0, g0, f, g, q, t, m, u)); }
                    if m == t { assert(c.ok_mid(f0, g0, f, g, q, t, b, u)); }
                    intro_witb(c, w, f, g, b, m, u);
                }
            }
        }
    }
}
pub proof fn lemma_fold_same(w: Seq<u32>, w2: Seq<u32>, arr: Seq<u32>, lo: int, hi: int, v: int)
    requires forall|j: int| lo <= j < hi ==> w[(#[trigger] arr[j]) as int] == w2[arr[j] as int],
    ensures fold_min(w, arr, lo, hi, v) == fold_min(w2, arr, lo, hi, v)
    decreases hi - lo
{ if hi > lo { lemma_fold_same(w, w2, arr, lo, hi - 1, v); } }
// after a change of some input weights the queued arcs are the only ones that can be out of date
pub proof fn lemma_history(c: &CCH, w: Seq<u32>, w2: Seq<u32>, f: Seq<u32>, g: Seq<u32>, q: IDSetMinQueue)
    requires c.wf(), c.weights_ok(w), c.weights_ok(w2), c.customized(w, f, g),
        forall|j: int| 0 <= j < c.k() && #[trigger] w[j] != w2[j] ==> c.input_arc_to_cch_arc@[j] == 0xFFFF_FFFF || has(q, c.input_arc_to_cch_arc@[j] as int),
    ensures c.local_except(w2, f, g, q), c.bounded(f, g)
{
    assert forall|t: int| #[trigger] c.arc(t) implies f[t] <= INF() && g[t] <= INF() by { lemma_init_bounds(c, w, t); assert(c.local(w, f, g, t)); }
    assert forall|t: int| #[trigger] c.arc(t) implies c.local(w2, f, g, t) || has(q, t) by {
        if !(has(q, t)) {
            assert(c.local(w, f, g, t));
            assert(c.initf(w, t) == c.initf(w2, t) && c.initb(w, t) == c.initb(w2, t)) by {
                if c.has_in(t) {
                    let e = c.exl(t);
                    assert forall|j: int| 0 <= j < c.k() && c.input_arc_to_cch_arc@[j] == t implies #[trigger] w[j] == w2[j] by { }
                    let vf = first_w(w, c.forward_input_arc_of_cch@[c.loc(t)]); let vb = first_w(w, c.backward_input_arc_of_cch@[c.loc(t)]);
                    if c.has_ex(t) {
                        lemma_fold_same(w, w2, c.extra_forward_input_arc_of_cch@, c.first_extra_forward_input_arc_of_cch@[e] as int, c.first_extra_forward_input_arc_of_cch@[e + 1] as int, vf);
                        lemma_fold_same(w, w2, c.extra_backward_input_arc_of_cch@, c.first_extra_backward_input_arc_of_cch@[e] as int, c.first_extra_backward_input_arc_of_cch@[e + 1] as int, vb);
                    }
                }
            }
            if f[t] == c.initf(w, t) { intro_witf(c, w2, f, g, 0, 0, t); } else { let (b, m) = open_witf(c, w, f, g, t); intro_witf(c, w2, f, g, b, m, t); }
            if g[t] == c.initb(w, t) { intro_witb(c, w2, f, g, 0, 0, t); } else { let (b, m) = open_witb(c, w, f, g, t); intro_witb(c, w2, f, g, b, m, t); }
        }
    }
}

pub proof fn lemma_min_id(q: IDSetMinQueue, t: int)
    requires wf(q), t < 0xFFFF_FFFF, forall|i: int| #[trigger] has(q, i) ==> i > t,
    ensures q.min_id > t
{ if q.min_id != 0xFFFF_FFFF { assert(has(q, q.min_id as int)); } }
pub proof fn lemma_has_min(q: IDSetMinQueue)
    requires wf(q), exists|i: int| #[trigger] has(q, i),
    ensures has(q, q.min_id as int), 0 <= q.min_id < q.max_number_of_ids
{ }
