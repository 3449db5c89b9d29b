// ---- elimination tree
pub proof fn lemma_anc(par: Seq<u32>, x: int, y: int)
    requires anc(par, x, y),
    ensures 0 <= x <= y < par.len(), y != x ==> x < par[x] <= y && anc(par, par[x] as int, y)
    decreases par.len() - x
{ if x != y { lemma_anc(par, par[x] as int, y); } }
pub proof fn lemma_anc_trans(par: Seq<u32>, x: int, y: int, z: int)
    requires anc(par, x, y), anc(par, y, z),
    ensures anc(par, x, z)
    decreases par.len() - x
{ if x != y { lemma_anc_trans(par, par[x] as int, y, z); } }
pub proof fn lemma_anc_lin(par: Seq<u32>, x: int, y: int, z: int)
    requires anc(par, x, y), anc(par, x, z), y <= z,
    ensures anc(par, y, z)
    decreases par.len() - x
{ lemma_anc(par, x, y); lemma_anc(par, x, z); if x != y { lemma_anc_lin(par, par[x] as int, y, z); } }
// the union of paths in the tree: path i starts at nodes[i] and ends before ends[i]
pub struct Sp { pub par: Seq<u32>, pub nodes: Seq<u32>, pub ends: Seq<u32> }
impl Sp {
    pub open spec fn inr(&self, i: int, x: int) -> bool { 0 <= i < self.nodes.len() && anc(self.par, self.nodes[i] as int, x) && x < self.ends[i] }
    pub open spec fn cov(&self, x: int) -> bool { exists|i: int| #[trigger] self.inr(i, x) }
    pub open spec fn own(&self, x: int) -> int { choose|i: int| #[trigger] self.inr(i, x) }
    pub open spec fn n(&self) -> int { self.par.len() as int }
    pub open spec fn wf(&self) -> bool {
        &&& tree_ok(self.par) && self.nodes.len() == self.ends.len()
        &&& forall|i: int| 0 <= i < self.nodes.len() ==> (#[trigger] self.nodes[i]) < self.n()
        &&& forall|i: int| 0 <= i < self.nodes.len() ==> (#[trigger] self.ends[i]) == INV() || (anc(self.par, self.nodes[i] as int, self.ends[i] as int) && self.cov(self.ends[i] as int) && self.own(self.ends[i] as int) < i)
        &&& forall|i: int, j: int, x: int| #[trigger] self.inr(i, x) && #[trigger] self.inr(j, x) ==> i == j
    }
    // x is on a path processed before position x0 of path i0 (paths are processed from the last to the first)
    pub open spec fn proc(&self, i0: int, x0: int, x: int) -> bool { self.cov(x) && (self.own(x) > i0 || (self.own(x) == i0 && x < x0)) }
    pub open spec fn ins_ok(&self, ins: Seq<bool>) -> bool { ins.len() == self.n() && forall|x: int| 0 <= x < self.n() ==> #[trigger] ins[x] == self.cov(x) }
}
pub proof fn lemma_own(sp: Sp, i: int, x: int)
    requires sp.wf(), sp.inr(i, x),
    ensures sp.cov(x), sp.own(x) == i, 0 <= x < sp.n()
{ assert(sp.inr(sp.own(x), x)); lemma_anc(sp.par, sp.nodes[i] as int, x); }
// ancestors of covered nodes are covered, by the same or an earlier path
pub proof fn lemma_closed(sp: Sp, x: int, z: int)
    requires sp.wf(), sp.cov(x), anc(sp.par, x, z),
    ensures sp.cov(z), sp.own(z) <= sp.own(x), 0 <= z < sp.n()
    decreases sp.n() - x
{
    let i = sp.own(x);
    assert(sp.inr(i, x));
    lemma_anc(sp.par, x, z);
    if z != x {
        let p = sp.par[x] as int;
        let s = sp.nodes[i] as int;
        lemma_anc(sp.par, s, x);
        assert(anc(sp.par, x, p)) by { assert(anc(sp.par, p, p)); }
        lemma_anc_trans(sp.par, s, x, p);
        if p < sp.ends[i] { assert(sp.inr(i, p)); lemma_own(sp, i, p); }
        else {
            lemma_anc_lin(sp.par, s, x, sp.ends[i] as int);
            lemma_anc(sp.par, x, sp.ends[i] as int);
            assert(p == sp.ends[i]);
        }
        lemma_closed(sp, p, z);
    }
}
// the part of path i before the parent of x is the part before x, and x
pub proof fn lemma_next(sp: Sp, i: int, x: int, y: int)
    requires sp.wf(), sp.inr(i, x),
    ensures sp.proc(i, sp.par[x] as int, y) == (sp.proc(i, x, y) || y == x)
{
    lemma_own(sp, i, x);
    lemma_anc(sp.par, sp.nodes[i] as int, x);
    if sp.cov(y) && sp.own(y) == i {
        assert(sp.inr(i, y));
        if y > x { lemma_anc_lin(sp.par, sp.nodes[i] as int, x, y); lemma_anc(sp.par, x, y); }
    }
}
// x, reached from the start of path i, is on it or at its end
pub proof fn lemma_step(sp: Sp, i: int, x: int)
    requires sp.wf(), sp.inr(i, x),
    ensures sp.par[x] == sp.ends[i] || sp.inr(i, sp.par[x] as int), x < sp.par[x]
{
    let s = sp.nodes[i] as int; let p = sp.par[x] as int;
    lemma_anc(sp.par, s, x);
    if sp.ends[i] != INV() { lemma_anc_lin(sp.par, s, x, sp.ends[i] as int); lemma_anc(sp.par, x, sp.ends[i] as int); }
    if p != INV() { assert(anc(sp.par, x, p)) by { assert(anc(sp.par, p, p)); } lemma_anc_trans(sp.par, s, x, p); }
}
pub proof fn lemma_start(sp: Sp, i: int)
    requires sp.wf(), 0 <= i < sp.nodes.len(),
    ensures sp.nodes[i] == sp.ends[i] || sp.inr(i, sp.nodes[i] as int), sp.nodes[i] < sp.n(), sp.ends[i] == INV() || sp.ends[i] < sp.n(),
        forall|y: int| sp.proc(i, sp.nodes[i] as int, y) == #[trigger] sp.proc(i, 0, y),
        forall|y: int| sp.proc(i, sp.ends[i] as int, y) == #[trigger] sp.proc(i - 1, 0, y),
{
    let s = sp.nodes[i] as int;
    assert(anc(sp.par, s, s));
    if sp.ends[i] != INV() { lemma_anc(sp.par, s, sp.ends[i] as int); }
    assert forall|y: int| sp.proc(i, s, y) == #[trigger] sp.proc(i, 0, y) by {
        if sp.cov(y) { assert(sp.inr(sp.own(y), y)); lemma_own(sp, sp.own(y), y); if sp.own(y) == i { lemma_anc(sp.par, s, y); } }
    }
    assert forall|y: int| sp.proc(i, sp.ends[i] as int, y) == #[trigger] sp.proc(i - 1, 0, y) by {
        if sp.cov(y) { assert(sp.inr(sp.own(y), y)); lemma_own(sp, sp.own(y), y); }
    }
}
// one more path
pub open spec fn sp_push(sp: Sp, s: u32, e: u32) -> Sp { Sp { par: sp.par, nodes: sp.nodes.push(s), ends: sp.ends.push(e) } }
pub proof fn lemma_push(sp: Sp, ins0: Seq<bool>, ins: Seq<bool>, s: u32, e: u32)
    requires sp.wf(), sp.ins_ok(ins0), ins.len() == sp.n(), s < sp.n(),
        e == INV() || (anc(sp.par, s as int, e as int) && ins0[e as int]),
        forall|y: int| #[trigger] anc(sp.par, s as int, y) && y < e ==> !ins0[y],
        forall|y: int| 0 <= y < sp.n() ==> #[trigger] ins[y] == (ins0[y] || (anc(sp.par, s as int, y) && y < e)),
    ensures sp_push(sp, s, e).wf(), sp_push(sp, s, e).ins_ok(ins)
{
    let q = sp_push(sp, s, e); let k = sp.nodes.len() as int;
    assert forall|i: int, x: int| #[trigger] q.inr(i, x) implies (i < k && sp.inr(i, x)) || (i == k && anc(sp.par, s as int, x) && x < e) by { }
    assert forall|i: int, x: int| #[trigger] sp.inr(i, x) implies q.inr(i, x) && i < k && 0 <= x < sp.n() by { lemma_own(sp, i, x); }
    assert forall|i: int, j: int, x: int| #[trigger] q.inr(i, x) && #[trigger] q.inr(j, x) implies i == j by {
        lemma_anc(sp.par, q.nodes[i] as int, x);
        if i == k && j < k { assert(sp.inr(j, x)); assert(ins0[x]); }
        if j == k && i < k { assert(sp.inr(i, x)); assert(ins0[x]); }
    }
    assert forall|x: int| sp.cov(x) implies #[trigger] q.cov(x) && q.own(x) == sp.own(x) by { let i = sp.own(x); assert(sp.inr(i, x)); assert(q.inr(i, x)); assert(q.inr(q.own(x), x)); }
    if e != INV() { lemma_anc(sp.par, s as int, e as int); assert(sp.cov(e as int)); assert(sp.inr(sp.own(e as int), e as int)); assert(q.cov(e as int)); }
    assert forall|i: int| 0 <= i < q.nodes.len() implies (#[trigger] q.ends[i]) == INV() || (anc(q.par, q.nodes[i] as int, q.ends[i] as int) && q.cov(q.ends[i] as int) && q.own(q.ends[i] as int) < i) by {
        if i < k { assert(sp.ends[i] == q.ends[i] && sp.nodes[i] == q.nodes[i]); if sp.ends[i] != INV() { assert(sp.cov(sp.ends[i] as int)); assert(q.cov(q.ends[i] as int)); } }
    }
    assert forall|i: int| 0 <= i < q.nodes.len() implies (#[trigger] q.nodes[i]) < q.n() by { if i < k { assert(sp.nodes[i] == q.nodes[i]); } }
    assert forall|x: int| 0 <= x < q.n() implies #[trigger] ins[x] == q.cov(x) by {
        if ins0[x] { assert(sp.cov(x)); assert(q.cov(x)); }
        if anc(sp.par, s as int, x) && x < e { assert(q.inr(k, x)); }
        if q.cov(x) { let i = q.own(x); assert(q.inr(i, x)); if i < k { assert(sp.inr(i, x)); assert(ins0[x]); } }
    }
}

// ---- input graph, in ranks
impl CustomizableContractionHierarchy {
    // p is a walk of input arcs from s to t
    pub open spec fn walk(&self, p: Seq<int>, s: int, t: int) -> bool
        decreases p.len()
    {
        if p.len() == 0 { s == t && 0 <= s < self.n() }
        else { self.used(p.last()) && self.to(p.last()) == t && self.walk(p.drop_last(), s, self.from(p.last())) }
    }
}
pub open spec fn wlen(w: Seq<u32>, p: Seq<int>) -> int
    decreases p.len()
{ if p.len() == 0 { 0 } else { wlen(w, p.drop_last()) + w[p.last()] } }
pub proof fn lemma_wlen(w: Seq<u32>, p: Seq<int>)
    ensures wlen(w, p) >= 0
    decreases p.len()
{ if p.len() > 0 { lemma_wlen(w, p.drop_last()); } }
pub proof fn lemma_one(c: &CCH, w: Seq<u32>, j: int) -> (p: Seq<int>)
    requires c.wf_up(), c.wf_in(), c.used(j),
    ensures c.walk(p, c.from(j), c.to(j)), wlen(w, p) == w[j]
{
    let p = seq![j];
    assert(c.arc(c.lk(j)));
    assert(p.drop_last() =~= Seq::empty());
    assert(c.walk(p.drop_last(), c.from(j), c.from(j)));
    assert(wlen(w, p.drop_last()) == 0);
    p
}
pub proof fn lemma_cat(c: &CCH, w: Seq<u32>, p: Seq<int>, q: Seq<int>, s: int, x: int, t: int)
    requires c.walk(p, s, x), c.walk(q, x, t),
    ensures c.walk(p + q, s, t), wlen(w, p + q) == wlen(w, p) + wlen(w, q)
    decreases q.len()
{
    if q.len() == 0 { assert(p + q =~= p); }
    else {
        lemma_cat(c, w, p, q.drop_last(), s, x, c.from(q.last()));
        assert((p + q).drop_last() =~= p + q.drop_last());
        assert((p + q).last() == q.last());
    }
}
pub proof fn lemma_fold_le(w: Seq<u32>, arr: Seq<u32>, lo: int, hi: int, v: int, e: int)
    ensures fold_min(w, arr, lo, hi, v) <= v, lo <= e < hi ==> fold_min(w, arr, lo, hi, v) <= w[arr[e] as int]
    decreases hi - lo
{ if hi > lo { lemma_fold_le(w, arr, lo, hi - 1, v, e); } }
pub proof fn lemma_fold_wit(w: Seq<u32>, arr: Seq<u32>, lo: int, hi: int, v: int) -> (e: int)
    ensures fold_min(w, arr, lo, hi, v) == v || (lo <= e < hi && fold_min(w, arr, lo, hi, v) == w[arr[e] as int])
    decreases hi - lo
{ if hi > lo { let e = lemma_fold_wit(w, arr, lo, hi - 1, v); if fold_min(w, arr, lo, hi, v) == fold_min(w, arr, lo, hi - 1, v) { e } else { hi - 1 } } else { 0 } }
// input arcs are at least the initial weight of their hierarchy arc
pub proof fn lemma_init_le(c: &CCH, w: Seq<u32>, j: int)
    requires c.wf_up(), c.wf_in(), c.wf_dir(), c.used(j), c.weights_ok(w),
    ensures c.arc(c.lk(j)), c.is_up(j) ==> c.initf(w, c.lk(j)) <= w[j], !c.is_up(j) ==> c.initb(w, c.lk(j)) <= w[j]
{
    let a = c.lk(j);
    assert(c.listed(j));
    let l = c.exl(a);
    if c.is_up(j) {
        let v = first_w(w, c.forward_input_arc_of_cch@[c.loc(a)]);
        if c.has_ex(a) {
            let lo = c.first_extra_forward_input_arc_of_cch@[l] as int; let hi = c.first_extra_forward_input_arc_of_cch@[l + 1] as int;
            lemma_fold_le(w, c.extra_forward_input_arc_of_cch@, lo, hi, v, lo);
            if c.forward_input_arc_of_cch@[c.loc(a)] != j {
                let e = choose|e: int| #[trigger] c.exf(a, e) && c.extra_forward_input_arc_of_cch@[e] == j;
                lemma_fold_le(w, c.extra_forward_input_arc_of_cch@, lo, hi, v, e);
            }
        }
    } else {
        let v = first_w(w, c.backward_input_arc_of_cch@[c.loc(a)]);
        if c.has_ex(a) {
            let lo = c.first_extra_backward_input_arc_of_cch@[l] as int; let hi = c.first_extra_backward_input_arc_of_cch@[l + 1] as int;
            lemma_fold_le(w, c.extra_backward_input_arc_of_cch@, lo, hi, v, lo);
            if c.backward_input_arc_of_cch@[c.loc(a)] != j {
                let e = choose|e: int| #[trigger] c.exb(a, e) && c.extra_backward_input_arc_of_cch@[e] == j;
                lemma_fold_le(w, c.extra_backward_input_arc_of_cch@, lo, hi, v, e);
            }
        }
    }
}
// an initial weight less than infinity is the weight of an input arc
pub proof fn lemma_init_arc(c: &CCH, w: Seq<u32>, a: int, fw: bool) -> (j: int)
    requires c.wf_up(), c.wf_in(), c.wf_dir(), c.weights_ok(w), c.arc(a), (if fw { c.initf(w, a) } else { c.initb(w, a) }) < INF(),
    ensures c.used(j), c.lk(j) == a, c.is_up(j) == fw, w[j] == (if fw { c.initf(w, a) } else { c.initb(w, a) })
{
    let l = c.exl(a);
    if fw {
        let h = c.forward_input_arc_of_cch@[c.loc(a)]; let v = first_w(w, h);
        if !c.has_ex(a) || c.initf(w, a) == v { assert(c.has_dir(a, true)); h as int }
        else {
            let e = lemma_fold_wit(w, c.extra_forward_input_arc_of_cch@, c.first_extra_forward_input_arc_of_cch@[l] as int, c.first_extra_forward_input_arc_of_cch@[l + 1] as int, v);
            assert(c.exf(a, e));
            c.extra_forward_input_arc_of_cch@[e] as int
        }
    } else {
        let h = c.backward_input_arc_of_cch@[c.loc(a)]; let v = first_w(w, h);
        if !c.has_ex(a) || c.initb(w, a) == v { assert(c.has_dir(a, false)); h as int }
        else {
            let e = lemma_fold_wit(w, c.extra_backward_input_arc_of_cch@, c.first_extra_backward_input_arc_of_cch@[l] as int, c.first_extra_backward_input_arc_of_cch@[l + 1] as int, v);
            assert(c.exb(a, e));
            c.extra_backward_input_arc_of_cch@[e] as int
        }
    }
}
impl CustomizableContractionHierarchy {
    // start and end of hierarchy arc a in a direction
    pub open spec fn st(&self, a: int, fw: bool) -> int { if fw { self.tl(a) } else { self.hd(a) } }
    pub open spec fn en(&self, a: int, fw: bool) -> int { if fw { self.hd(a) } else { self.tl(a) } }
    pub open spec fn good(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>) -> bool { self.all_wf() && self.weights_ok(w) && self.customized(w, f, g) }
}
pub open spec fn wt(f: Seq<u32>, g: Seq<u32>, a: int, fw: bool) -> int { if fw { f[a] as int } else { g[a] as int } }
// a customized weight less than infinity is the length of a walk
pub proof fn lemma_arc_walk(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, a: int, fw: bool) -> (p: Seq<int>)
    requires c.good(w, f, g), c.arc(a), wt(f, g, a, fw) < INF(),
    ensures c.walk(p, c.st(a, fw), c.en(a, fw)), wlen(w, p) == wt(f, g, a, fw)
    decreases a
{
    assert(c.local(w, f, g, a));
    if wt(f, g, a, fw) == (if fw { c.initf(w, a) } else { c.initb(w, a) }) {
        let j = lemma_init_arc(c, w, a, fw);
        lemma_one(c, w, j)
    } else if fw {
        let (b, m) = open_witf(c, w, f, g, a);
        lemma_lower(c, b, m, a);
        let p = lemma_arc_walk(c, w, f, g, b, false); let q = lemma_arc_walk(c, w, f, g, m, true);
        lemma_cat(c, w, p, q, c.tl(a), c.tl(b), c.hd(a));
        p + q
    } else {
        let (b, m) = open_witb(c, w, f, g, a);
        lemma_lower(c, b, m, a);
        let p = lemma_arc_walk(c, w, f, g, m, false); let q = lemma_arc_walk(c, w, f, g, b, true);
        lemma_cat(c, w, p, q, c.hd(a), c.tl(b), c.tl(a));
        p + q
    }
}
// ---- searches
#[verifier::opaque]
pub open spec fn wq(c: &CCH, wv: Seq<u32>, s: Seq<u32>, d: Seq<u32>, pred: Seq<u32>, y: int) -> bool {
    (pred[y] == INV() && d[y] == s[y]) || (exists|a: int| #[trigger] c.arc(a) && c.tl(a) == pred[y] && c.hd(a) == y && d[y] == d[c.tl(a)] + wv[a])
}
pub proof fn open_wq(c: &CCH, wv: Seq<u32>, s: Seq<u32>, d: Seq<u32>, pred: Seq<u32>, y: int) -> (a: int)
    requires c.wf_up(), wq(c, wv, s, d, pred, y),
    ensures (pred[y] == INV() && d[y] == s[y]) || (pred[y] != INV() && c.arc(a) && c.tl(a) == pred[y] && c.hd(a) == y && d[y] == d[c.tl(a)] + wv[a])
{ reveal(wq); if pred[y] == INV() && d[y] == s[y] { 0 } else { choose|a: int| #[trigger] c.arc(a) && c.tl(a) == pred[y] && c.hd(a) == y && d[y] == d[c.tl(a)] + wv[a] } }
pub proof fn intro_wq(c: &CCH, wv: Seq<u32>, s: Seq<u32>, d: Seq<u32>, pred: Seq<u32>, y: int, a: int)
    requires (pred[y] == INV() && d[y] == s[y]) || (c.arc(a) && c.tl(a) == pred[y] && c.hd(a) == y && d[y] == d[c.tl(a)] + wv[a]),
    ensures wq(c, wv, s, d, pred, y)
{ reveal(wq); }
// the sources s, before a search
pub open spec fn side_ok(sp: Sp, s: Seq<u32>, pred: Seq<u32>, ins: Seq<bool>) -> bool {
    &&& sp.wf() && sp.ins_ok(ins) && s.len() == sp.n() && pred.len() == sp.n() && sp.nodes.len() < INV()
    &&& forall|y: int| 0 <= y < s.len() ==> (#[trigger] s[y]) <= INF() && (s[y] < INF() ==> sp.cov(y) && pred[y] == INV())
}
// the search from sources s has relaxed the arcs of the nodes before x on path i, and those of x before arc a0
#[verifier::opaque]
pub open spec fn srch(c: &CCH, wv: Seq<u32>, s: Seq<u32>, d: Seq<u32>, pred: Seq<u32>, sp: Sp, i: int, x: int, a0: int) -> bool {
    &&& d.len() == c.n() && pred.len() == c.n()
    &&& forall|y: int| 0 <= y < c.n() ==> (#[trigger] d[y]) <= s[y] && d[y] <= INF() && (d[y] < INF() ==> sp.cov(y) && wq(c, wv, s, d, pred, y)
            && (pred[y] == INV() || sp.proc(i, x, pred[y] as int) || (pred[y] == x && a0 > 0)))
    &&& forall|a: int| #[trigger] c.arc(a) && (sp.proc(i, x, c.tl(a)) || (c.tl(a) == x && a < a0)) ==> d[c.hd(a)] <= d[c.tl(a)] + wv[a]
}
pub open spec fn cch_side(c: &CCH, sp: Sp, wv: Seq<u32>) -> bool {
    &&& c.wf_up() && c.wf_tree() && sp.wf() && sp.par == c.elimination_tree_parent@ && wv.len() == c.m() && sp.nodes.len() < INV()
    &&& forall|a: int| #[trigger] c.arc(a) ==> wv[a] <= INF()
}
pub proof fn lemma_srch(c: &CCH, wv: Seq<u32>, s: Seq<u32>, d: Seq<u32>, pred: Seq<u32>, sp: Sp, i: int, x: int, a0: int)
    requires srch(c, wv, s, d, pred, sp, i, x, a0),
    ensures d.len() == c.n(), pred.len() == c.n(), forall|y: int| 0 <= y < c.n() ==> (#[trigger] d[y]) <= INF(), forall|y: int| 0 <= y < c.n() && !sp.cov(y) ==> (#[trigger] d[y]) == INF()
{ reveal(srch); }
pub proof fn lemma_search_start(c: &CCH, sp: Sp, wv: Seq<u32>, s: Seq<u32>, pred: Seq<u32>, ins: Seq<bool>)
    requires cch_side(c, sp, wv), side_ok(sp, s, pred, ins),
    ensures srch(c, wv, s, s, pred, sp, sp.nodes.len() - 1, 0, 0)
{
    reveal(srch);
    assert forall|y: int| 0 <= y < c.n() implies (#[trigger] s[y]) <= s[y] && s[y] <= INF() && (s[y] < INF() ==> sp.cov(y) && wq(c, wv, s, s, pred, y)) by { if s[y] < INF() { intro_wq(c, wv, s, s, pred, y, 0); } }
    assert forall|y: int| !(#[trigger] sp.proc(sp.nodes.len() - 1, 0, y)) by {
        if sp.cov(y) { assert(sp.inr(sp.own(y), y)); lemma_own(sp, sp.own(y), y); }
    }
    assert forall|a: int| #[trigger] c.arc(a) && (sp.proc(sp.nodes.len() - 1, 0, c.tl(a)) || (c.tl(a) == 0 && a < 0)) implies s[c.hd(a)] <= s[c.tl(a)] + wv[a] by { assert(!(sp.proc(sp.nodes.len() - 1, 0, c.tl(a)))); }
}
// path i begins
pub proof fn lemma_path_start(c: &CCH, sp: Sp, wv: Seq<u32>, s: Seq<u32>, d: Seq<u32>, pred: Seq<u32>, i: int)
    requires cch_side(c, sp, wv), srch(c, wv, s, d, pred, sp, i, 0, 0), 0 <= i < sp.nodes.len(),
    ensures srch(c, wv, s, d, pred, sp, i, sp.nodes[i] as int, 0), sp.nodes[i] < c.n(), sp.ends[i] == INV() || sp.ends[i] < c.n(), sp.nodes[i] == sp.ends[i] || sp.inr(i, sp.nodes[i] as int)
{
    reveal(srch);
    lemma_start(sp, i);
    assert forall|y: int| 0 <= y < c.n() implies (#[trigger] d[y]) <= s[y] && d[y] <= INF() && (d[y] < INF() ==> sp.cov(y) && wq(c, wv, s, d, pred, y)
            && (pred[y] == INV() || sp.proc(i, sp.nodes[i] as int, pred[y] as int))) by { assert(sp.proc(i, sp.nodes[i] as int, pred[y] as int) == sp.proc(i, 0, pred[y] as int)); }
    assert forall|a: int| #[trigger] c.arc(a) && sp.proc(i, sp.nodes[i] as int, c.tl(a)) implies d[c.hd(a)] <= d[c.tl(a)] + wv[a] by { assert(sp.proc(i, 0, c.tl(a))); }
}
pub proof fn lemma_path_end(c: &CCH, sp: Sp, wv: Seq<u32>, s: Seq<u32>, d: Seq<u32>, pred: Seq<u32>, i: int)
    requires cch_side(c, sp, wv), srch(c, wv, s, d, pred, sp, i, sp.ends[i] as int, 0), 0 <= i < sp.nodes.len(),
    ensures srch(c, wv, s, d, pred, sp, i - 1, 0, 0)
{
    reveal(srch);
    lemma_start(sp, i);
    assert forall|y: int| 0 <= y < c.n() implies (#[trigger] d[y]) <= s[y] && d[y] <= INF() && (d[y] < INF() ==> sp.cov(y) && wq(c, wv, s, d, pred, y)
            && (pred[y] == INV() || sp.proc(i - 1, 0, pred[y] as int))) by { assert(sp.proc(i, sp.ends[i] as int, pred[y] as int) == sp.proc(i - 1, 0, pred[y] as int)); }
    assert forall|a: int| #[trigger] c.arc(a) && sp.proc(i - 1, 0, c.tl(a)) implies d[c.hd(a)] <= d[c.tl(a)] + wv[a] by { assert(sp.proc(i, sp.ends[i] as int, c.tl(a))); }
}
pub proof fn lemma_node_start(c: &CCH, sp: Sp, wv: Seq<u32>, s: Seq<u32>, d: Seq<u32>, pred: Seq<u32>, i: int, x: int)
    requires cch_side(c, sp, wv), srch(c, wv, s, d, pred, sp, i, x, 0), sp.inr(i, x),
    ensures srch(c, wv, s, d, pred, sp, i, x, c.up_first_out@[x] as int), 0 <= x < c.n(), c.up_first_out@[x] <= c.up_first_out@[x + 1] <= c.m()
{
    reveal(srch);
    lemma_own(sp, i, x);
    assert(c.up_first_out@[x + 1] <= c.up_first_out@[c.n()]);
    assert forall|a: int| #[trigger] c.arc(a) && (sp.proc(i, x, c.tl(a)) || (c.tl(a) == x && a < c.up_first_out@[x])) implies d[c.hd(a)] <= d[c.tl(a)] + wv[a] by { }
}
pub proof fn lemma_node_end(c: &CCH, sp: Sp, wv: Seq<u32>, s: Seq<u32>, d: Seq<u32>, pred: Seq<u32>, i: int, x: int)
    requires cch_side(c, sp, wv), srch(c, wv, s, d, pred, sp, i, x, c.up_first_out@[x + 1] as int), sp.inr(i, x),
    ensures srch(c, wv, s, d, pred, sp, i, sp.par[x] as int, 0), sp.par[x] == sp.ends[i] || sp.inr(i, sp.par[x] as int), x < sp.par[x]
{
    reveal(srch);
    lemma_own(sp, i, x); lemma_step(sp, i, x);
    let p = sp.par[x] as int;
    assert forall|y: int| 0 <= y < c.n() implies (#[trigger] d[y]) <= s[y] && d[y] <= INF() && (d[y] < INF() ==> sp.cov(y) && wq(c, wv, s, d, pred, y)
            && (pred[y] == INV() || sp.proc(i, p, pred[y] as int))) by { lemma_next(sp, i, x, pred[y] as int); }
    assert forall|a: int| #[trigger] c.arc(a) && sp.proc(i, p, c.tl(a)) implies d[c.hd(a)] <= d[c.tl(a)] + wv[a] by { lemma_next(sp, i, x, c.tl(a)); }
}
pub proof fn lemma_arc_step(c: &CCH, sp: Sp, wv: Seq<u32>, s: Seq<u32>, d: Seq<u32>, pred: Seq<u32>, d2: Seq<u32>, pred2: Seq<u32>, i: int, x: int, a: int)
    requires cch_side(c, sp, wv), srch(c, wv, s, d, pred, sp, i, x, a), sp.inr(i, x), c.up_first_out@[x] <= a < c.up_first_out@[x + 1],
        (d[x] + wv[a] < d[c.hd(a)] && d2 == d.update(c.hd(a), (d[x] + wv[a]) as u32) && pred2 == pred.update(c.hd(a), x as u32)) || (d[x] + wv[a] >= d[c.hd(a)] && d2 == d && pred2 == pred),
    ensures srch(c, wv, s, d2, pred2, sp, i, x, a + 1), d2[x] == d[x],
        forall|y: int| 0 <= y < c.n() && sp.proc(i, x, y) ==> #[trigger] d2[y] == d[y]
{
    reveal(srch);
    lemma_own(sp, i, x); lemma_range(c, a, x);
    let h = c.hd(a);
    assert(anc(sp.par, x, h));
    lemma_closed(sp, x, h);
    assert(!(sp.proc(i, x, h)) && h != x);
    assert forall|y: int| 0 <= y < c.n() implies (#[trigger] d2[y]) <= s[y] && d2[y] <= INF() && (d2[y] < INF() ==> sp.cov(y) && wq(c, wv, s, d2, pred2, y)
            && (pred2[y] == INV() || sp.proc(i, x, pred2[y] as int) || pred2[y] == x)) by {
        assert(d[y] <= s[y]);
        if d2[y] < INF() {
            if y == h && d2[h] != d[h] { assert(d[x] < INF()); assert(sp.cov(x)); intro_wq(c, wv, s, d2, pred2, y, a); }
            else {
                assert(d2[y] == d[y] && pred2[y] == pred[y]);
                let b = open_wq(c, wv, s, d, pred, y);
                if !(pred[y] == INV() && d[y] == s[y]) { assert(c.tl(b) == pred[y]); assert(c.tl(b) != h); }
                intro_wq(c, wv, s, d2, pred2, y, b);
            }
        }
    }
    assert forall|b: int| #[trigger] c.arc(b) && (sp.proc(i, x, c.tl(b)) || (c.tl(b) == x && b < a + 1)) implies d2[c.hd(b)] <= d2[c.tl(b)] + wv[b] by {
        assert(c.tl(b) != h);
    }
}
// ---- the result of a search
pub open spec fn closed(c: &CCH, wv: Seq<u32>, d: Seq<u32>) -> bool { forall|a: int| #[trigger] c.arc(a) ==> d[c.hd(a)] <= d[c.tl(a)] + wv[a] }
pub open spec fn fin(c: &CCH, wv: Seq<u32>, s: Seq<u32>, d: Seq<u32>, pred: Seq<u32>) -> bool {
    &&& d.len() == c.n() && pred.len() == c.n() && s.len() == c.n()
    &&& forall|y: int| 0 <= y < c.n() ==> (#[trigger] d[y]) <= s[y] && d[y] <= INF() && (d[y] < INF() ==> wq(c, wv, s, d, pred, y))
    &&& closed(c, wv, d)
}
pub proof fn lemma_fin(c: &CCH, sp: Sp, wv: Seq<u32>, s: Seq<u32>, d: Seq<u32>, pred: Seq<u32>)
    requires cch_side(c, sp, wv), srch(c, wv, s, d, pred, sp, -1, 0, 0), s.len() == c.n(),
    ensures fin(c, wv, s, d, pred)
{
    reveal(srch);
    assert forall|a: int| #[trigger] c.arc(a) implies d[c.hd(a)] <= d[c.tl(a)] + wv[a] by {
        assert(d[c.tl(a)] <= INF() && d[c.hd(a)] <= INF());
        if d[c.tl(a)] < INF() { assert(sp.cov(c.tl(a))); assert(sp.inr(sp.own(c.tl(a)), c.tl(a))); assert(sp.proc(-1, 0, c.tl(a))); }
    }
}
// the nodes of path i before x, and later paths, have their final distance
pub proof fn lemma_final_at(c: &CCH, sp: Sp, i: int, x: int)
    requires sp.wf(), sp.inr(i, x),
    ensures !(sp.proc(i, x, x))
{ lemma_own(sp, i, x); }
// a walk that realizes a distance
pub proof fn lemma_fwd_walk(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, s: Seq<u32>, d: Seq<u32>, pred: Seq<u32>, y: int) -> (r: (int, Seq<int>))
    requires c.good(w, f, g), fin(c, f, s, d, pred), 0 <= y < c.n(), d[y] < INF(),
    ensures 0 <= r.0 < c.n(), c.walk(r.1, r.0, y), s[r.0] + wlen(w, r.1) == d[y]
    decreases y
{
    let a = open_wq(c, f, s, d, pred, y);
    if pred[y] == INV() && d[y] == s[y] { assert(wlen(w, Seq::<int>::empty()) == 0); (y, Seq::empty()) }
    else {
        let (x, p) = lemma_fwd_walk(c, w, f, g, s, d, pred, c.tl(a));
        let q = lemma_arc_walk(c, w, f, g, a, true);
        lemma_cat(c, w, p, q, x, c.tl(a), y);
        (x, p + q)
    }
}
pub proof fn lemma_bwd_walk(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, t: Seq<u32>, d: Seq<u32>, pred: Seq<u32>, y: int) -> (r: (int, Seq<int>))
    requires c.good(w, f, g), fin(c, g, t, d, pred), 0 <= y < c.n(), d[y] < INF(),
    ensures 0 <= r.0 < c.n(), c.walk(r.1, y, r.0), t[r.0] + wlen(w, r.1) == d[y]
    decreases y
{
    let a = open_wq(c, g, t, d, pred, y);
    if pred[y] == INV() && d[y] == t[y] { assert(wlen(w, Seq::<int>::empty()) == 0); (y, Seq::empty()) }
    else {
        let (x, p) = lemma_bwd_walk(c, w, f, g, t, d, pred, c.tl(a));
        let q = lemma_arc_walk(c, w, f, g, a, false);
        lemma_cat(c, w, q, p, y, c.tl(a), x);
        (x, q + p)
    }
}
// arcs of the hierarchy from x downwards to t
pub open spec fn dwalk(c: &CCH, d: Seq<int>, x: int, t: int) -> bool
    decreases d.len()
{
    if d.len() == 0 { x == t && 0 <= x < c.n() } else { c.arc(d.last()) && c.tl(d.last()) == t && dwalk(c, d.drop_last(), x, c.hd(d.last())) }
}
pub proof fn lemma_dwalk(c: &CCH, g: Seq<u32>, d: Seq<int>, x: int, t: int)
    requires dwalk(c, d, x, t), c.wf_up(),
    ensures 0 <= t <= x < c.n(), wlen(g, d) >= 0
    decreases d.len()
{ if d.len() > 0 { lemma_dwalk(c, g, d.drop_last(), x, c.hd(d.last())); } }
pub proof fn lemma_dpush(c: &CCH, g: Seq<u32>, d: Seq<int>, x: int, t: int, a: int)
    requires dwalk(c, d, x, t), c.wf_up(), c.arc(a), c.hd(a) == t,
    ensures dwalk(c, d.push(a), x, c.tl(a)), wlen(g, d.push(a)) == wlen(g, d) + g[a]
{ assert(d.push(a).drop_last() =~= d); assert(d.push(a).last() == a); }
impl CustomizableContractionHierarchy {
    // f and g satisfy the lower triangle inequalities, and finite weights can exist, with f in direction fw
    pub open spec fn metric_ok(&self, f: Seq<u32>, g: Seq<u32>, fw: bool) -> bool {
        &&& self.wf_up() && self.chordal()
        &&& forall|b: int, m: int, t: int| #[trigger] self.tri(b, m, t) ==> self.le_tri(f, g, b, m, t)
        &&& forall|a: int| #[trigger] self.arc(a) ==> (f[a] < INF() ==> self.can(a, fw)) && (g[a] < INF() ==> self.can(a, !fw))
    }
}
pub proof fn lemma_metric_ok(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>)
    requires c.good(w, f, g),
    ensures c.metric_ok(f, g, true), c.metric_ok(g, f, false)
{
    assert forall|t: int| #[trigger] c.arc(t) implies c.witf(w, f, g, t) && c.witb(w, f, g, t) by { assert(c.local(w, f, g, t)); }
    assert forall|b: int, m: int, t: int| #[trigger] c.tri(b, m, t) implies c.le_tri(f, g, b, m, t) && c.le_tri(g, f, b, m, t) by { assert(c.local(w, f, g, t)); }
    assert forall|a: int| #[trigger] c.arc(a) implies (f[a] < INF() ==> c.can(a, true)) && (g[a] < INF() ==> c.can(a, false)) by { lemma_can(c, w, f, g, a); }
}
// an arc upwards after a walk downwards can be replaced
pub proof fn lemma_up(c: &CCH, f: Seq<u32>, g: Seq<u32>, fw: bool, dist: Seq<u32>, d: Seq<int>, x: int, a: int) -> (r: (int, Seq<int>))
    requires c.metric_ok(f, g, fw), closed(c, f, dist), dwalk(c, d, x, c.tl(a)), c.arc(a), dist[x] + wlen(g, d) + f[a] < INF(),
    ensures dwalk(c, r.1, r.0, c.hd(a)), dist[r.0] + wlen(g, r.1) <= dist[x] + wlen(g, d) + f[a]
    decreases d.len()
{
    lemma_dwalk(c, g, d, x, c.tl(a));
    if d.len() == 0 { assert(dist[c.hd(a)] <= dist[c.tl(a)] + f[a]); assert(wlen(g, Seq::<int>::empty()) == 0); assert(dwalk(c, Seq::empty(), c.hd(a), c.hd(a))); (c.hd(a), Seq::empty()) }
    else {
        let b = d.last(); let e = d.drop_last(); let z = c.hd(b);
        lemma_dwalk(c, g, e, x, z);
        if c.hd(a) == z { (x, e) }
        else {
            assert(c.can(a, fw) && c.can(b, !fw));
            if c.hd(a) < z {
                assert(a < b) by { if b < a { assert(c.hd(b) < c.hd(a)); } }
                let u = open_chordal(c, a, b);
                assert(c.le_tri(f, g, a, b, u));
                lemma_dpush(c, g, e, x, z, u);
                (x, e.push(u))
            } else {
                assert(b < a) by { if a < b { assert(c.hd(a) < c.hd(b)); } }
                let u = open_chordal(c, b, a);
                assert(c.le_tri(f, g, b, a, u));
                lemma_up(c, f, g, fw, dist, e, x, u)
            }
        }
    }
}
// each walk is dominated by a walk upwards, which the search has covered, and a walk downwards
pub proof fn lemma_dominated(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, dist: Seq<u32>, p: Seq<int>, s: int, t: int) -> (r: (int, Seq<int>))
    requires c.good(w, f, g), closed(c, f, dist), c.walk(p, s, t), dist.len() == c.n(), dist[s] + wlen(w, p) < INF(),
    ensures dwalk(c, r.1, r.0, t), dist[r.0] + wlen(g, r.1) <= dist[s] + wlen(w, p)
    decreases p.len()
{
    if p.len() == 0 { assert(wlen(g, Seq::<int>::empty()) == 0); assert(dwalk(c, Seq::empty(), s, s)); (s, Seq::empty()) }
    else {
        let j = p.last(); let q = p.drop_last(); let a = c.lk(j);
        lemma_wlen(w, q);
        let (x, d) = lemma_dominated(c, w, f, g, dist, q, s, c.from(j));
        lemma_init_le(c, w, j);
        assert(c.local(w, f, g, a));
        lemma_metric_ok(c, w, f, g);
        if c.is_up(j) { lemma_up(c, f, g, true, dist, d, x, a) }
        else { lemma_dpush(c, g, d, x, c.hd(a), a); (x, d.push(a)) }
    }
}
pub proof fn lemma_first(c: &CCH, w: Seq<u32>, p: Seq<int>, s: int, t: int)
    requires c.wf_up(), c.wf_in(), c.walk(p, s, t), p.len() > 0,
    ensures c.used(p[0]), c.from(p[0]) == s, c.walk(p.subrange(1, p.len() as int), c.to(p[0]), t), wlen(w, p) == w[p[0]] + wlen(w, p.subrange(1, p.len() as int))
    decreases p.len()
{
    let q = p.subrange(1, p.len() as int); let e = p.drop_last();
    if p.len() == 1 { assert(q =~= Seq::empty()); assert(e =~= Seq::empty()); assert(wlen(w, q) == 0 && wlen(w, e) == 0); 
        assert(c.walk(e, s, c.from(p.last()))); assert(c.arc(c.lk(p[0]))); }
    else { lemma_first(c, w, e, s, c.from(p.last())); assert(q.drop_last() =~= e.subrange(1, e.len() as int)); assert(q.last() == p.last()); }
}
// the same, from the end of the walk
pub proof fn lemma_dominated_rev(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, dist: Seq<u32>, p: Seq<int>, s: int, t: int) -> (r: (int, Seq<int>))
    requires c.good(w, f, g), closed(c, g, dist), c.walk(p, s, t), dist.len() == c.n(), dist[t] + wlen(w, p) < INF(),
    ensures dwalk(c, r.1, r.0, s), dist[r.0] + wlen(f, r.1) <= dist[t] + wlen(w, p)
    decreases p.len()
{
    if p.len() == 0 { assert(wlen(f, Seq::<int>::empty()) == 0); assert(dwalk(c, Seq::empty(), s, s)); (s, Seq::empty()) }
    else {
        let j = p[0]; let q = p.subrange(1, p.len() as int); let a = c.lk(j);
        lemma_first(c, w, p, s, t);
        lemma_wlen(w, q);
        let (x, d) = lemma_dominated_rev(c, w, f, g, dist, q, c.to(j), t);
        lemma_init_le(c, w, j);
        assert(c.local(w, f, g, a));
        lemma_metric_ok(c, w, f, g);
        if c.is_up(j) { lemma_dpush(c, f, d, x, c.hd(a), a); (x, d.push(a)) }
        else { lemma_up(c, g, f, false, dist, d, x, a) }
    }
}
pub proof fn lemma_down_closed(c: &CCH, g: Seq<u32>, e: Seq<u32>, d: Seq<int>, x: int, t: int)
    requires c.wf_up(), closed(c, g, e), dwalk(c, d, x, t), 0 <= t < c.n(),
    ensures e[x] <= e[t] + wlen(g, d)
    decreases d.len()
{
    if d.len() > 0 {
        let b = d.last();
        assert(e[c.hd(b)] <= e[c.tl(b)] + g[b]);
        lemma_down_closed(c, g, e, d.drop_last(), x, c.hd(b));
    }
}
// r is the least length of a walk from a source to a target, with the distances at the source and the target
pub open spec fn exact(c: &CCH, w: Seq<u32>, s: Seq<u32>, t: Seq<u32>, r: int) -> bool {
    &&& r <= INF()
    &&& r < INF() ==> exists|x: int, y: int, p: Seq<int>| #[trigger] c.walk(p, x, y) && 0 <= x < c.n() && 0 <= y < c.n() && r == s[x] + wlen(w, p) + t[y]
    &&& forall|x: int, y: int, p: Seq<int>| #[trigger] c.walk(p, x, y) && 0 <= x < c.n() && 0 <= y < c.n() ==> r <= s[x] + wlen(w, p) + t[y]
}
pub open spec fn best(c: &CCH, d: Seq<u32>, e: Seq<u32>, mid: int, r: int) -> bool {
    &&& r <= INF()
    &&& mid == INV() ==> r == INF()
    &&& mid != INV() ==> 0 <= mid < c.n() && r == d[mid] + e[mid] && r < INF()
    &&& forall|y: int| 0 <= y < c.n() ==> r <= d[y] + #[trigger] e[y]
}
pub proof fn lemma_exact(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, s: Seq<u32>, t: Seq<u32>, d: Seq<u32>, pd: Seq<u32>, e: Seq<u32>, pe: Seq<u32>, mid: int, r: int)
    requires c.good(w, f, g), fin(c, f, s, d, pd), fin(c, g, t, e, pe), best(c, d, e, mid, r),
    ensures exact(c, w, s, t, r)
{
    if r < INF() {
        let (x, p) = lemma_fwd_walk(c, w, f, g, s, d, pd, mid);
        let (y, q) = lemma_bwd_walk(c, w, f, g, t, e, pe, mid);
        lemma_cat(c, w, p, q, x, mid, y);
        assert(c.walk(p + q, x, y));
    }
    assert forall|x: int, y: int, p: Seq<int>| #[trigger] c.walk(p, x, y) && 0 <= x < c.n() && 0 <= y < c.n() implies r <= s[x] + wlen(w, p) + t[y] by {
        lemma_wlen(w, p);
        assert(d[x] <= s[x] && e[y] <= t[y]);
        if s[x] + wlen(w, p) + t[y] < INF() {
            let (z, q) = lemma_dominated(c, w, f, g, d, p, x, y);
            lemma_dwalk(c, g, q, z, y);
            lemma_down_closed(c, g, e, q, z, y);
            assert(r <= d[z] + e[z]);
        }
    }
}
// ---- the query object
pub open spec fn spf(q: &CustomizableContractionHierarchyQuery) -> Sp { Sp { par: q.cch.val().elimination_tree_parent@, nodes: q.source_node@, ends: q.source_elimination_tree_end@ } }
pub open spec fn spb(q: &CustomizableContractionHierarchyQuery) -> Sp { Sp { par: q.cch.val().elimination_tree_parent@, nodes: q.target_node@, ends: q.target_elimination_tree_end@ } }
pub open spec fn all_inf(d: Seq<u32>) -> bool { forall|y: int| 0 <= y < d.len() ==> #[trigger] d[y] == INF() }
// finite distances only on covered nodes
pub open spec fn on(sp: Sp, d: Seq<u32>) -> bool { forall|y: int| 0 <= y < d.len() ==> (#[trigger] d[y]) <= INF() && (d[y] < INF() ==> sp.cov(y)) }
pub open spec fn on2(sp: Sp, sq: Sp, d: Seq<u32>) -> bool { forall|y: int| 0 <= y < d.len() ==> (#[trigger] d[y]) <= INF() && (d[y] < INF() ==> sp.cov(y) || sq.cov(y)) }
pub open spec fn none(sp: Sp) -> bool { sp.nodes.len() == 0 && sp.ends.len() == 0 }
impl CustomizableContractionHierarchyQuery {
    pub open spec fn c(&self) -> CCH { self.cch.val() }
    pub open spec fn f(&self) -> Seq<u32> { self.metric.val().forward@ }
    pub open spec fn g(&self) -> Seq<u32> { self.metric.val().backward@ }
    pub open spec fn w(&self) -> Seq<u32> { self.metric.val().w() }
    pub open spec fn links(&self) -> bool {
        &&& !self.cch.null() && !self.metric.null() && self.metric.val().cch == self.cch
        &&& self.c().all_wf() && self.c().bounded(self.f(), self.g())
    }
    pub open spec fn lens(&self) -> bool {
        let n = self.c().n();
        &&& self.forward_tentative_distance@.len() == n && self.backward_tentative_distance@.len() == n
        &&& self.forward_predecessor_node@.len() == n && self.backward_predecessor_node@.len() == n
        &&& spf(self).wf() && spb(self).wf() && spf(self).ins_ok(self.in_forward_search_space@) && spb(self).ins_ok(self.in_backward_search_space@)
        &&& self.source_node@.len() < INV() && self.target_node@.len() < INV()
    }
    pub open spec fn inv(&self) -> bool {
        let (sf, sb, df, db) = (spf(self), spb(self), self.forward_tentative_distance@, self.backward_tentative_distance@);
        &&& self.links() && self.lens() && self.state <= 5
        &&& self.state == 0 ==> side_ok(sf, df, self.forward_predecessor_node@, self.in_forward_search_space@) && side_ok(sb, db, self.backward_predecessor_node@, self.in_backward_search_space@)
        &&& self.state == 1 ==> on(sf, df) && on(sb, db)
        &&& self.state == 2 ==> all_inf(df) && side_ok(sb, db, self.backward_predecessor_node@, self.in_backward_search_space@)
        &&& self.state == 3 ==> all_inf(df) && on2(sf, sb, db)
        &&& self.state == 4 ==> all_inf(db) && side_ok(sf, df, self.forward_predecessor_node@, self.in_forward_search_space@)
        &&& self.state == 5 ==> all_inf(db) && on2(sf, sb, df)
    }
    // no sources and no targets
    pub open spec fn fresh(&self) -> bool {
        &&& self.inv() && self.state == 0 && none(spf(self)) && none(spb(self))
        &&& all_inf(self.forward_tentative_distance@) && all_inf(self.backward_tentative_distance@)
    }
    // the query ran with the sources s and the targets t
    pub open spec fn ran(&self, s: Seq<u32>, t: Seq<u32>) -> bool {
        &&& self.inv() && self.state == 1
        &&& fin(&self.c(), self.f(), s, self.forward_tentative_distance@, self.forward_predecessor_node@)
        &&& fin(&self.c(), self.g(), t, self.backward_tentative_distance@, self.backward_predecessor_node@)
        &&& exists|r: int| #[trigger] best(&self.c(), self.forward_tentative_distance@, self.backward_tentative_distance@, self.shortest_path_meeting_node as int, r)
    }
}
pub proof fn lemma_sides(q: &CustomizableContractionHierarchyQuery)
    requires q.inv(), q.state == 0,
    ensures q.source_node@.len() == q.source_elimination_tree_end@.len() < INV(), q.target_node@.len() == q.target_elimination_tree_end@.len() < INV(), q.in_forward_search_space@.len() == q.c().n(),
        forall|x: int| 0 <= x < q.c().n() ==> #[trigger] q.in_forward_search_space@[x] == spf(q).cov(x), spf(q).wf(), spb(q).wf()
{}
pub proof fn lemma_ran(q: &CustomizableContractionHierarchyQuery, o: &CustomizableContractionHierarchyQuery, s: Seq<u32>, t: Seq<u32>, r: int)
    requires o.inv(), o.state == 0, qframe2(q, o), q.state == 1, fin(&q.c(), q.f(), s, q.forward_tentative_distance@, q.forward_predecessor_node@), fin(&q.c(), q.g(), t, q.backward_tentative_distance@, q.backward_predecessor_node@),
        on(spf(q), q.forward_tentative_distance@), on(spb(q), q.backward_tentative_distance@), best(&q.c(), q.forward_tentative_distance@, q.backward_tentative_distance@, q.shortest_path_meeting_node as int, r),
    ensures q.ran(s, t)
{}
pub open spec fn gi(i: u32) -> int { if i == 0xFFFF_FFFFu32 { -1 } else { i as int } }
pub open spec fn mk(par: Seq<u32>, nodes: Seq<u32>, ends: Seq<u32>) -> Sp { Sp { par: par, nodes: nodes, ends: ends } }
// the nodes on the way from s to e are marked, and those only
pub open spec fn marked(par: Seq<u32>, s: int, ins0: Seq<bool>, ins: Seq<bool>, e: u32) -> bool {
    &&& e == INV() || anc(par, s, e as int)
    &&& ins.len() == ins0.len()
    &&& forall|y: int| #[trigger] anc(par, s, y) && y < e ==> !ins0[y]
    &&& forall|y: int| 0 <= y < ins.len() ==> #[trigger] ins[y] == (ins0[y] || (anc(par, s, y) && y < e))
}
pub proof fn lemma_mark(par: Seq<u32>, s: int, ins0: Seq<bool>, ins: Seq<bool>, ins2: Seq<bool>, x: u32)
    requires tree_ok(par), marked(par, s, ins0, ins, x), x < par.len(), ins.len() == par.len(), !ins[x as int], ins2 == ins.update(x as int, true),
    ensures marked(par, s, ins0, ins2, par[x as int]), x < par[x as int], par[x as int] == INV() || par[x as int] < par.len()
{
    let p = par[x as int];
    assert(!ins0[x as int]);
    if p != INV() { assert(anc(par, x as int, p as int)) by { assert(anc(par, p as int, p as int)); } lemma_anc_trans(par, s, x as int, p as int); }
    assert forall|y: int| #[trigger] anc(par, s, y) && y < p implies !ins0[y] && y <= x by {
        if y > x { lemma_anc_lin(par, s, x as int, y); lemma_anc(par, x as int, y); }
    }
}
pub proof fn lemma_before(sp: Sp, i: int, x: int, y: int)
    requires sp.wf(), sp.inr(i, x),
    ensures (sp.cov(y) && sp.own(y) == i && y < sp.par[x]) == ((sp.cov(y) && sp.own(y) == i && y < x) || y == x)
{
    lemma_own(sp, i, x);
    lemma_anc(sp.par, sp.nodes[i] as int, x);
    if sp.cov(y) && sp.own(y) == i {
        assert(sp.inr(i, y));
        if y > x { lemma_anc_lin(sp.par, sp.nodes[i] as int, x, y); lemma_anc(sp.par, x, y); }
    }
}
// x is on a path before position x0 of path i0, paths in order
pub open spec fn asc(sp: Sp, i0: int, x0: int, y: int) -> bool { sp.cov(y) && (sp.own(y) < i0 || (sp.own(y) == i0 && y < x0)) }
pub proof fn lemma_asc_start(sp: Sp, i: int, y: int)
    requires sp.wf(), 0 <= i < sp.nodes.len(),
    ensures asc(sp, i, sp.nodes[i] as int, y) == asc(sp, i, 0, y), asc(sp, i, sp.ends[i] as int, y) == asc(sp, i + 1, 0, y)
{
    if sp.cov(y) {
        assert(sp.inr(sp.own(y), y)); lemma_own(sp, sp.own(y), y);
        if sp.own(y) == i { lemma_anc(sp.par, sp.nodes[i] as int, y); }
    }
}
pub open spec fn qframe2(a: &CustomizableContractionHierarchyQuery, b: &CustomizableContractionHierarchyQuery) -> bool {
    &&& a.cch == b.cch && a.metric == b.metric
    &&& a.source_node == b.source_node && a.source_elimination_tree_end == b.source_elimination_tree_end
    &&& a.target_node == b.target_node && a.target_elimination_tree_end == b.target_elimination_tree_end
    &&& a.in_forward_search_space == b.in_forward_search_space && a.in_backward_search_space == b.in_backward_search_space
}
pub open spec fn qframe(a: &CustomizableContractionHierarchyQuery, b: &CustomizableContractionHierarchyQuery) -> bool {
    &&& a.cch == b.cch && a.metric == b.metric && a.state == b.state
    &&& a.source_node == b.source_node && a.source_elimination_tree_end == b.source_elimination_tree_end
    &&& a.target_node == b.target_node && a.target_elimination_tree_end == b.target_elimination_tree_end
    &&& a.in_forward_search_space == b.in_forward_search_space && a.in_backward_search_space == b.in_backward_search_space
}
// best meeting node among the processed nodes
#[verifier::opaque]
pub open spec fn bestp(c: &CCH, d: Seq<u32>, e: Seq<u32>, sp: Sp, i: int, x: int, mid: int, r: int) -> bool {
    &&& r <= INF()
    &&& mid == INV() ==> r == INF()
    &&& mid != INV() ==> 0 <= mid < c.n() && sp.proc(i, x, mid) && r == d[mid] + e[mid] && r < INF()
    &&& forall|y: int| 0 <= y < c.n() && sp.proc(i, x, y) ==> r <= d[y] + #[trigger] e[y]
}
pub proof fn lemma_bestp_start(c: &CCH, d: Seq<u32>, e: Seq<u32>, sp: Sp)
    requires sp.wf(),
    ensures bestp(c, d, e, sp, sp.nodes.len() - 1, 0, INV() as int, INF() as int)
{
    reveal(bestp);
    assert forall|y: int| !(#[trigger] sp.proc(sp.nodes.len() - 1, 0, y)) by { if sp.cov(y) { assert(sp.inr(sp.own(y), y)); lemma_own(sp, sp.own(y), y); } }
}
pub proof fn lemma_bestp_enter(c: &CCH, d: Seq<u32>, e: Seq<u32>, sp: Sp, i: int, mid: int, r: int)
    requires sp.wf(), bestp(c, d, e, sp, i, 0, mid, r), 0 <= i < sp.nodes.len(), e.len() == c.n(),
    ensures bestp(c, d, e, sp, i, sp.nodes[i] as int, mid, r)
{
    reveal(bestp); lemma_start(sp, i);
    let x = sp.nodes[i] as int;
    assert(sp.proc(i, x, mid) == sp.proc(i, 0, mid));
    assert forall|y: int| 0 <= y < c.n() && sp.proc(i, x, y) implies r <= d[y] + #[trigger] e[y] by { assert(sp.proc(i, 0, y)); }
}
pub proof fn lemma_bestp_leave(c: &CCH, d: Seq<u32>, e: Seq<u32>, sp: Sp, i: int, mid: int, r: int)
    requires sp.wf(), bestp(c, d, e, sp, i, sp.ends[i] as int, mid, r), 0 <= i < sp.nodes.len(), e.len() == c.n(),
    ensures bestp(c, d, e, sp, i - 1, 0, mid, r)
{
    reveal(bestp); lemma_start(sp, i);
    let x = sp.ends[i] as int;
    assert(sp.proc(i, x, mid) == sp.proc(i - 1, 0, mid));
    assert forall|y: int| 0 <= y < c.n() && sp.proc(i - 1, 0, y) implies r <= d[y] + #[trigger] e[y] by { assert(sp.proc(i, x, y)); }
}
// the node x has been compared
pub proof fn lemma_bestp_node(c: &CCH, d: Seq<u32>, e: Seq<u32>, e2: Seq<u32>, sp: Sp, i: int, x: int, mid: int, r: int, mid2: int, r2: int)
    requires sp.wf(), bestp(c, d, e, sp, i, x, mid, r), sp.inr(i, x), e.len() == c.n(), e2.len() == c.n(), 0 <= x < c.n(),
        forall|y: int| 0 <= y < c.n() && (sp.proc(i, x, y) || y == x) ==> #[trigger] e2[y] == e[y],
        (mid2 == mid && r2 == r && r <= d[x] + e2[x]) || (mid2 == x && r2 == d[x] + e2[x] && r2 < r),
    ensures bestp(c, d, e2, sp, i, sp.par[x] as int, mid2, r2)
{
    reveal(bestp);
    let p = sp.par[x] as int;
    assert forall|y: int| #[trigger] sp.proc(i, p, y) == (sp.proc(i, x, y) || y == x) by { lemma_next(sp, i, x, y); }
    if mid != INV() { assert(e2[mid] == e[mid]); }
    assert(sp.proc(i, p, mid2) || mid2 == INV());
    assert forall|y: int| 0 <= y < c.n() && sp.proc(i, p, y) implies r2 <= d[y] + #[trigger] e2[y] by { if y != x { assert(sp.proc(i, x, y)); assert(e2[y] == e[y]); assert(r <= d[y] + e[y]); } }
}
pub proof fn lemma_bestp(c: &CCH, d: Seq<u32>, e: Seq<u32>, sp: Sp, i: int, x: int, mid: int, r: int)
    requires bestp(c, d, e, sp, i, x, mid, r),
    ensures r <= INF()
{ reveal(bestp); }
pub proof fn lemma_best(c: &CCH, d: Seq<u32>, e: Seq<u32>, sp: Sp, mid: int, r: int)
    requires bestp(c, d, e, sp, -1, 0, mid, r), sp.wf(), on(sp, e), e.len() == c.n(), d.len() == c.n(),
    ensures best(c, d, e, mid, r)
{
    reveal(bestp);
    assert forall|y: int| 0 <= y < c.n() implies r <= d[y] + #[trigger] e[y] by {
        if e[y] < INF() { assert(sp.cov(y)); assert(sp.inr(sp.own(y), y)); assert(sp.proc(-1, 0, y)); }
    }
}
pub open spec fn used_source(c: &CCH, w: Seq<u32>, s: Seq<u32>, t: Seq<u32>, r: u32) -> bool {
    exists|x: int, y: int, p: Seq<int>| #[trigger] c.walk(p, x, y) && 0 <= x < c.n() && 0 <= y < c.n() && r == c.order@[x] && s[x] + wlen(w, p) + t[y] < INF() && exact(c, w, s, t, s[x] + wlen(w, p) + t[y])
}
pub open spec fn used_target(c: &CCH, w: Seq<u32>, s: Seq<u32>, t: Seq<u32>, r: u32) -> bool {
    exists|x: int, y: int, p: Seq<int>| #[trigger] c.walk(p, x, y) && 0 <= x < c.n() && 0 <= y < c.n() && r == c.order@[y] && s[x] + wlen(w, p) + t[y] < INF() && exact(c, w, s, t, s[x] + wlen(w, p) + t[y])
}
pub proof fn lemma_empty(sp: Sp, ins: Seq<bool>)
    requires tree_ok(sp.par), none(sp), ins.len() == sp.n(), forall|y: int| 0 <= y < ins.len() ==> !(#[trigger] ins[y]),
    ensures sp.wf(), sp.ins_ok(ins), forall|y: int| !(#[trigger] sp.cov(y))
{
    assert forall|y: int| !(#[trigger] sp.cov(y)) by { if sp.cov(y) { assert(sp.inr(sp.own(y), y)); } }
}

// ---- pinned targets
// the distances d1 of the search upwards have been extended downwards to the nodes of sb
pub open spec fn wd(c: &CCH, g: Seq<u32>, d1: Seq<u32>, d: Seq<u32>, y: int) -> bool {
    d[y] == d1[y] || exists|a: int| #[trigger] c.arc(a) && c.tl(a) == y && d[y] == d[c.hd(a)] + g[a]
}
pub proof fn intro_wd(c: &CCH, g: Seq<u32>, d1: Seq<u32>, d: Seq<u32>, y: int, a: int)
    requires d[y] == d1[y] || (c.arc(a) && c.tl(a) == y && d[y] == d[c.hd(a)] + g[a]),
    ensures wd(c, g, d1, d, y)
{ }
pub open spec fn dfin(c: &CCH, g: Seq<u32>, sb: Sp, d1: Seq<u32>, d: Seq<u32>) -> bool {
    &&& d.len() == c.n()
    &&& forall|y: int| 0 <= y < c.n() ==> (#[trigger] d[y]) <= d1[y] && (if sb.cov(y) { wd(c, g, d1, d, y) } else { d[y] == d1[y] })
    &&& forall|a: int| #[trigger] c.arc(a) && sb.cov(c.tl(a)) ==> d[c.tl(a)] <= d[c.hd(a)] + g[a]
}
pub open spec fn pin_ran(c: &CCH, f: Seq<u32>, g: Seq<u32>, s: Seq<u32>, sb: Sp, d: Seq<u32>) -> bool {
    exists|d1: Seq<u32>, pred: Seq<u32>| #[trigger] fin(c, f, s, d1, pred) && dfin(c, g, sb, d1, d)
}
pub proof fn lemma_pin_down(c: &CCH, g: Seq<u32>, sb: Sp, d1: Seq<u32>, d: Seq<u32>, q: Seq<int>, x: int, t: int)
    requires cch_side(c, sb, g), dfin(c, g, sb, d1, d), dwalk(c, q, x, t), sb.cov(t),
    ensures d[t] <= d1[x] + wlen(g, q)
    decreases q.len()
{
    lemma_dwalk(c, g, q, x, t);
    if q.len() == 0 { assert(d[t] <= d1[t]); }
    else {
        let b = q.last();
        assert(anc(sb.par, c.tl(b), c.hd(b)));
        lemma_closed(sb, t, c.hd(b));
        lemma_pin_down(c, g, sb, d1, d, q.drop_last(), x, c.hd(b));
        assert(d[c.tl(b)] <= d[c.hd(b)] + g[b]);
    }
}
pub proof fn lemma_pin_walk(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, s: Seq<u32>, sb: Sp, d1: Seq<u32>, pred: Seq<u32>, d: Seq<u32>, y: int) -> (r: (int, Seq<int>))
    requires c.good(w, f, g), fin(c, f, s, d1, pred), dfin(c, g, sb, d1, d), 0 <= y < c.n(), d[y] < INF(),
    ensures 0 <= r.0 < c.n(), c.walk(r.1, r.0, y), s[r.0] + wlen(w, r.1) == d[y]
    decreases c.n() - y
{
    if d[y] == d1[y] { lemma_fwd_walk(c, w, f, g, s, d1, pred, y) }
    else {
        assert(wd(c, g, d1, d, y));
        let a = choose|a: int| #[trigger] c.arc(a) && c.tl(a) == y && d[y] == d[c.hd(a)] + g[a];
        let (x, p) = lemma_pin_walk(c, w, f, g, s, sb, d1, pred, d, c.hd(a));
        let q = lemma_arc_walk(c, w, f, g, a, false);
        lemma_cat(c, w, p, q, x, c.hd(a), y);
        (x, p + q)
    }
}
pub proof fn lemma_pin_walk_rev(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, s: Seq<u32>, sb: Sp, d1: Seq<u32>, pred: Seq<u32>, d: Seq<u32>, y: int) -> (r: (int, Seq<int>))
    requires c.good(w, f, g), fin(c, g, s, d1, pred), dfin(c, f, sb, d1, d), 0 <= y < c.n(), d[y] < INF(),
    ensures 0 <= r.0 < c.n(), c.walk(r.1, y, r.0), s[r.0] + wlen(w, r.1) == d[y]
    decreases c.n() - y
{
    if d[y] == d1[y] { lemma_bwd_walk(c, w, f, g, s, d1, pred, y) }
    else {
        assert(wd(c, f, d1, d, y));
        let a = choose|a: int| #[trigger] c.arc(a) && c.tl(a) == y && d[y] == d[c.hd(a)] + f[a];
        let (x, p) = lemma_pin_walk_rev(c, w, f, g, s, sb, d1, pred, d, c.hd(a));
        let q = lemma_arc_walk(c, w, f, g, a, true);
        lemma_cat(c, w, q, p, y, c.hd(a), x);
        (x, q + p)
    }
}
// r is the least length of a walk from a source to t
#[verifier::opaque]
pub open spec fn exact_to(c: &CCH, w: Seq<u32>, s: Seq<u32>, t: int, r: int) -> bool {
    &&& r <= INF()
    &&& r < INF() ==> exists|x: int, p: Seq<int>| #[trigger] c.walk(p, x, t) && 0 <= x < c.n() && r == s[x] + wlen(w, p)
    &&& forall|x: int, p: Seq<int>| #[trigger] c.walk(p, x, t) && 0 <= x < c.n() ==> r <= s[x] + wlen(w, p)
}
#[verifier::opaque]
pub open spec fn exact_from(c: &CCH, w: Seq<u32>, t: Seq<u32>, s: int, r: int) -> bool {
    &&& r <= INF()
    &&& r < INF() ==> exists|y: int, p: Seq<int>| #[trigger] c.walk(p, s, y) && 0 <= y < c.n() && r == t[y] + wlen(w, p)
    &&& forall|y: int, p: Seq<int>| #[trigger] c.walk(p, s, y) && 0 <= y < c.n() ==> r <= t[y] + wlen(w, p)
}
pub proof fn lemma_exact_to(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, s: Seq<u32>, sb: Sp, d: Seq<u32>, t: int)
    requires c.good(w, f, g), cch_side(c, sb, g), pin_ran(c, f, g, s, sb, d), 0 <= t < c.n(), sb.cov(t),
    ensures exact_to(c, w, s, t, d[t] as int)
{
    reveal(exact_to);
    let (d1, pred) = choose|d1: Seq<u32>, pred: Seq<u32>| #[trigger] fin(c, f, s, d1, pred) && dfin(c, g, sb, d1, d);
    assert(d[t] <= d1[t] && d1[t] <= INF());
    if d[t] < INF() { let (x, p) = lemma_pin_walk(c, w, f, g, s, sb, d1, pred, d, t); assert(c.walk(p, x, t)); }
    assert forall|x: int, p: Seq<int>| #[trigger] c.walk(p, x, t) && 0 <= x < c.n() implies d[t] <= s[x] + wlen(w, p) by {
        lemma_wlen(w, p);
        assert(d1[x] <= s[x]);
        if s[x] + wlen(w, p) < INF() {
            let (z, q) = lemma_dominated(c, w, f, g, d1, p, x, t);
            lemma_pin_down(c, g, sb, d1, d, q, z, t);
        }
    }
}
pub proof fn lemma_exact_from(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, t: Seq<u32>, sb: Sp, d: Seq<u32>, s: int)
    requires c.good(w, f, g), cch_side(c, sb, f), pin_ran(c, g, f, t, sb, d), 0 <= s < c.n(), sb.cov(s),
    ensures exact_from(c, w, t, s, d[s] as int)
{
    reveal(exact_from);
    let (d1, pred) = choose|d1: Seq<u32>, pred: Seq<u32>| #[trigger] fin(c, g, t, d1, pred) && dfin(c, f, sb, d1, d);
    assert(d[s] <= d1[s] && d1[s] <= INF());
    if d[s] < INF() { let (x, p) = lemma_pin_walk_rev(c, w, f, g, t, sb, d1, pred, d, s); assert(c.walk(p, s, x)); }
    assert forall|y: int, p: Seq<int>| #[trigger] c.walk(p, s, y) && 0 <= y < c.n() implies d[s] <= t[y] + wlen(w, p) by {
        lemma_wlen(w, p);
        assert(d1[y] <= t[y]);
        if t[y] + wlen(w, p) < INF() {
            let (z, q) = lemma_dominated_rev(c, w, f, g, d1, p, s, y);
            lemma_pin_down(c, f, sb, d1, d, q, z, s);
        }
    }
}
// ---- the stack of nodes, later positions are popped first
pub open spec fn bef(sp: Sp, u: int, v: int) -> bool { sp.own(u) > sp.own(v) || (sp.own(u) == sp.own(v) && u < v) }
// the first k elements of st are the processed nodes, in order
pub open spec fn stk(sp: Sp, st: Seq<u32>, k: int, i: int, x: int) -> bool {
    &&& 0 <= k <= st.len()
    &&& forall|j: int| 0 <= j < k ==> sp.proc(i, x, (#[trigger] st[j]) as int)
    &&& forall|j: int, l: int| 0 <= j < l < k ==> bef(sp, (#[trigger] st[j]) as int, (#[trigger] st[l]) as int)
    &&& forall|y: int| #[trigger] sp.proc(i, x, y) ==> exists|j: int| 0 <= j < k && #[trigger] st[j] == y
}
pub proof fn lemma_room(sp: Sp, st: Seq<u32>, k: int, i: int, x: int)
    requires sp.wf(), stk(sp, st, k, i, x), sp.inr(i, x),
    ensures k < sp.n()
{
    lemma_own(sp, i, x);
    let q = st.subrange(0, k).map(|j: int, v: u32| v as int).push(x);
    assert forall|j: int| 0 <= j < q.len() implies 0 <= #[trigger] q[j] < sp.n() by {
        if j < k { let y = st[j] as int; assert(sp.proc(i, x, y)); assert(sp.inr(sp.own(y), y)); lemma_own(sp, sp.own(y), y); }
    }
    assert forall|j: int, l: int| 0 <= j < l < q.len() implies q[j] != q[l] by {
        if l < k { assert(bef(sp, st[j] as int, st[l] as int)); } else { assert(sp.proc(i, x, st[j] as int)); }
    }
    assert(q.no_duplicates());
    q.unique_seq_to_set();
    let r = vstd::set_lib::set_int_range(0, sp.n());
    vstd::set_lib::lemma_int_range(0, sp.n());
    assert(q.to_set().subset_of(r));
    vstd::set_lib::lemma_len_subset(q.to_set(), r);
}
pub proof fn lemma_stk_push(sp: Sp, st: Seq<u32>, k: int, i: int, x: int)
    requires sp.wf(), stk(sp, st, k, i, x), sp.inr(i, x), k < st.len(), x < 0xFFFF_FFFF,
    ensures stk(sp, st.update(k, x as u32), k + 1, i, sp.par[x] as int)
{
    lemma_own(sp, i, x);
    let s2 = st.update(k, x as u32); let p = sp.par[x] as int;
    assert forall|y: int| #[trigger] sp.proc(i, p, y) == (sp.proc(i, x, y) || y == x) by { lemma_next(sp, i, x, y); }
    assert forall|j: int| 0 <= j < k + 1 implies sp.proc(i, p, (#[trigger] s2[j]) as int) by { if j < k { assert(sp.proc(i, x, st[j] as int)); } }
    assert forall|j: int, l: int| 0 <= j < l < k + 1 implies bef(sp, (#[trigger] s2[j]) as int, (#[trigger] s2[l]) as int) by {
        if l < k { assert(bef(sp, st[j] as int, st[l] as int)); } else { assert(sp.proc(i, x, st[j] as int)); }
    }
    assert forall|y: int| #[trigger] sp.proc(i, p, y) implies exists|j: int| 0 <= j < k + 1 && #[trigger] s2[j] == y by {
        if y == x { assert(s2[k] == y); } else { assert(sp.proc(i, x, y)); let j = choose|j: int| 0 <= j < k && #[trigger] st[j] == y; assert(s2[j] == y); }
    }
}
pub proof fn lemma_stk_cong(sp: Sp, st: Seq<u32>, k: int, i: int, x: int, i2: int, x2: int)
    requires stk(sp, st, k, i, x), forall|y: int| sp.proc(i, x, y) == #[trigger] sp.proc(i2, x2, y),
    ensures stk(sp, st, k, i2, x2)
{
    assert forall|j: int| 0 <= j < k implies sp.proc(i2, x2, (#[trigger] st[j]) as int) by { assert(sp.proc(i, x, st[j] as int)); }
    assert forall|y: int| #[trigger] sp.proc(i2, x2, y) implies exists|j: int| 0 <= j < k && #[trigger] st[j] == y by { assert(sp.proc(i, x, y)); }
}
// y is at a position from e on
pub open spec fn popped(st: Seq<u32>, n: int, e: int, y: int) -> bool { exists|j: int| e <= j < n && #[trigger] st[j] == y }
// state of the search downwards: positions from e on are done, and the arcs of x at position e - 1 before a0 are relaxed
pub open spec fn dwn(c: &CCH, g: Seq<u32>, st: Seq<u32>, k: int, d1: Seq<u32>, d: Seq<u32>, e: int, x: int, a0: int) -> bool {
    &&& d.len() == c.n()
    &&& forall|y: int| 0 <= y < c.n() ==> (#[trigger] d[y]) <= d1[y] && (if popped(st, k, e, y) || (y == x && a0 > 0) { wd(c, g, d1, d, y) } else { d[y] == d1[y] })
    &&& forall|a: int| #[trigger] c.arc(a) && (popped(st, k, e, c.tl(a)) || (c.tl(a) == x && a < a0)) ==> d[c.tl(a)] <= d[c.hd(a)] + g[a]
}
pub proof fn lemma_sp(c: &CCH, sp: Sp, wv: Seq<u32>)
    requires cch_side(c, sp, wv),
    ensures sp.wf(), sp.nodes.len() == sp.ends.len()
{}
pub proof fn lemma_search_begin(c: &CCH, sp: Sp, wv: Seq<u32>, s: Seq<u32>, pred: Seq<u32>)
    requires cch_side(c, sp, wv), on(sp, s), s.len() == c.n(), pred == Seq::new(c.n() as nat, |y: int| 0xFFFF_FFFFu32),
    ensures srch(c, wv, s, s, pred, sp, sp.nodes.len() - 1, 0, 0)
{ let ins = Seq::new(c.n() as nat, |y: int| sp.cov(y)); lemma_search_start(c, sp, wv, s, pred, ins); }
pub proof fn lemma_stk_start(sp: Sp, st: Seq<u32>)
    requires sp.wf(),
    ensures stk(sp, st, 0, sp.nodes.len() - 1, 0)
{ assert forall|y: int| !(#[trigger] sp.proc(sp.nodes.len() - 1, 0, y)) by { if sp.cov(y) { assert(sp.inr(sp.own(y), y)); lemma_own(sp, sp.own(y), y); } } }
pub proof fn lemma_stk_enter(sp: Sp, st: Seq<u32>, k: int, i: int)
    requires sp.wf(), stk(sp, st, k, i, 0), 0 <= i < sp.nodes.len(),
    ensures stk(sp, st, k, i, sp.nodes[i] as int), sp.nodes[i] < sp.n(), sp.ends[i] == INV() || sp.ends[i] < sp.n(), sp.nodes[i] == sp.ends[i] || sp.inr(i, sp.nodes[i] as int)
{
    lemma_start(sp, i);
    if sp.ends[i] != INV() { lemma_anc(sp.par, sp.nodes[i] as int, sp.ends[i] as int); }
    lemma_stk_cong(sp, st, k, i, 0, i, sp.nodes[i] as int);
}
pub proof fn lemma_stk_leave(sp: Sp, st: Seq<u32>, k: int, i: int)
    requires sp.wf(), stk(sp, st, k, i, sp.ends[i] as int), 0 <= i < sp.nodes.len(),
    ensures stk(sp, st, k, i - 1, 0)
{ lemma_start(sp, i); lemma_stk_cong(sp, st, k, i, sp.ends[i] as int, i - 1, 0); }
pub proof fn lemma_stk(sp: Sp, st: Seq<u32>, k: int, i: int, x: int)
    requires stk(sp, st, k, i, x),
    ensures 0 <= k <= st.len()
{}
pub proof fn lemma_dwn_start(c: &CCH, g: Seq<u32>, st: Seq<u32>, k: int, d: Seq<u32>)
    requires d.len() == c.n(),
    ensures dwn(c, g, st, k, d, d, k, -1, 0)
{
    assert forall|y: int| !popped(st, k, k, y) by { }
    assert forall|a: int| #[trigger] c.arc(a) && (popped(st, k, k, c.tl(a)) || (c.tl(a) == -1 && a < 0)) implies d[c.tl(a)] <= d[c.hd(a)] + g[a] by { }
}
pub proof fn lemma_dwn(c: &CCH, g: Seq<u32>, st: Seq<u32>, k: int, d1: Seq<u32>, d: Seq<u32>, e: int, x: int, a0: int)
    requires dwn(c, g, st, k, d1, d, e, x, a0),
    ensures d.len() == c.n(), forall|y: int| 0 <= y < c.n() ==> (#[trigger] d[y]) <= d1[y]
{}
pub proof fn lemma_pin_ran(c: &CCH, f: Seq<u32>, g: Seq<u32>, s: Seq<u32>, sf: Sp, sb: Sp, d1: Seq<u32>, pred: Seq<u32>, d: Seq<u32>)
    requires fin(c, f, s, d1, pred), on(sf, d1), dfin(c, g, sb, d1, d), d.len() == c.n(), forall|y: int| 0 <= y < c.n() ==> (#[trigger] d[y]) <= d1[y],
    ensures pin_ran(c, f, g, s, sb, d), on2(sf, sb, d)
{
    assert forall|y: int| 0 <= y < c.n() implies (#[trigger] d[y]) <= INF() && (d[y] < INF() ==> sf.cov(y) || sb.cov(y)) by { assert(d1[y] <= INF()); }
}
pub proof fn lemma_pop(c: &CCH, sb: Sp, g: Seq<u32>, st: Seq<u32>, k: int, d1: Seq<u32>, d: Seq<u32>, e: int)
    requires cch_side(c, sb, g), stk(sb, st, k, -1, 0), dwn(c, g, st, k, d1, d, e, -1, 0), 0 < e <= k,
    ensures sb.cov(st[e - 1] as int), st[e - 1] < c.n(), c.up_first_out@[st[e - 1] as int] <= c.up_first_out@[st[e - 1] + 1] <= c.m(),
        dwn(c, g, st, k, d1, d, e, st[e - 1] as int, c.up_first_out@[st[e - 1] as int] as int)
{
    let x = st[e - 1] as int;
    assert(sb.proc(-1, 0, x)); assert(sb.inr(sb.own(x), x)); lemma_own(sb, sb.own(x), x);
    assert(c.up_first_out@[x + 1] <= c.up_first_out@[c.n()]);
    assert(!(popped(st, k, e, x))) by { if popped(st, k, e, x) { let j = choose|j: int| e <= j < k && #[trigger] st[j] == x; assert(bef(sb, st[e - 1] as int, st[j] as int)); } }
}
pub proof fn lemma_dwn_step(c: &CCH, sb: Sp, g: Seq<u32>, st: Seq<u32>, k: int, d1: Seq<u32>, d: Seq<u32>, d2: Seq<u32>, e: int, x: int, a: int)
    requires cch_side(c, sb, g), stk(sb, st, k, -1, 0), 0 < e <= k, x == st[e - 1], sb.cov(x), x < c.n(), dwn(c, g, st, k, d1, d, e, x, a),
        c.up_first_out@[x] <= a < c.up_first_out@[x + 1],
        (d[c.hd(a)] + g[a] < d[x] && d2 == d.update(x, (d[c.hd(a)] + g[a]) as u32)) || (d[c.hd(a)] + g[a] >= d[x] && d2 == d),
    ensures dwn(c, g, st, k, d1, d2, e, x, a + 1)
{
    lemma_range(c, a, x);
    assert(!(popped(st, k, e, x))) by { if popped(st, k, e, x) { let j = choose|j: int| e <= j < k && #[trigger] st[j] == x; assert(bef(sb, st[e - 1] as int, st[j] as int)); } }
    assert forall|y: int| 0 <= y < c.n() implies (#[trigger] d2[y]) <= d1[y] && (if popped(st, k, e, y) || y == x { wd(c, g, d1, d2, y) } else { d2[y] == d1[y] }) by {
        assert(d[y] <= d1[y]);
        if popped(st, k, e, y) || y == x {
            if y == x && d2[x] != d[x] { intro_wd(c, g, d1, d2, y, a); }
            else if d[y] == d1[y] { intro_wd(c, g, d1, d2, y, a); }
            else {
                assert(wd(c, g, d1, d, y));
                let b = choose|b: int| #[trigger] c.arc(b) && c.tl(b) == y && d[y] == d[c.hd(b)] + g[b];
                assert(c.hd(b) != x) by { if c.hd(b) == x && y != x { lemma_not_popped_arc(c, sb, st, k, e, b); } }
                intro_wd(c, g, d1, d2, y, b);
            }
        }
    }
    assert forall|b: int| #[trigger] c.arc(b) && (popped(st, k, e, c.tl(b)) || (c.tl(b) == x && b < a + 1)) implies d2[c.tl(b)] <= d2[c.hd(b)] + g[b] by {
        assert(c.tl(b) < c.hd(b));
        if popped(st, k, e, c.tl(b)) { if c.hd(b) == x { lemma_not_popped_arc(c, sb, st, k, e, b); } }
    }
}
// the upper end of an arc of a popped node is popped
pub proof fn lemma_not_popped_arc(c: &CCH, sb: Sp, st: Seq<u32>, k: int, e: int, b: int)
    requires c.wf_up(), c.wf_tree(), sb.wf(), sb.par == c.elimination_tree_parent@, stk(sb, st, k, -1, 0), 0 < e <= k, c.arc(b), c.hd(b) == st[e - 1],
    ensures !popped(st, k, e, c.tl(b))
{
    let y = c.tl(b); let x = c.hd(b);
    if popped(st, k, e, y) {
        let j = choose|j: int| e <= j < k && #[trigger] st[j] == y;
        assert(bef(sb, st[e - 1] as int, st[j] as int));
        assert(sb.proc(-1, 0, y));
        assert(anc(sb.par, y, x));
        lemma_closed(sb, y, x);
    }
}
pub proof fn lemma_dwn_end(c: &CCH, sb: Sp, g: Seq<u32>, st: Seq<u32>, k: int, d1: Seq<u32>, d: Seq<u32>, e: int, x: int)
    requires cch_side(c, sb, g), stk(sb, st, k, -1, 0), 0 < e <= k, x == st[e - 1], sb.cov(x), x < c.n(), dwn(c, g, st, k, d1, d, e, x, c.up_first_out@[x + 1] as int),
    ensures dwn(c, g, st, k, d1, d, e - 1, -1, 0)
{
    assert forall|y: int| #[trigger] popped(st, k, e - 1, y) == (popped(st, k, e, y) || y == x) by {
        if popped(st, k, e - 1, y) { let j = choose|j: int| e - 1 <= j < k && #[trigger] st[j] == y; if j >= e { assert(st[j] == y); } }
        if y == x { assert(st[e - 1] == y); }
        if popped(st, k, e, y) { let j = choose|j: int| e <= j < k && #[trigger] st[j] == y; assert(e - 1 <= j < k && st[j] == y); }
    }
    assert forall|y: int| 0 <= y < c.n() implies (#[trigger] d[y]) <= d1[y] && (if popped(st, k, e - 1, y) { wd(c, g, d1, d, y) } else { d[y] == d1[y] }) by {
        assert(popped(st, k, e - 1, y) == (popped(st, k, e, y) || y == x));
        if y == x && d[y] == d1[y] { intro_wd(c, g, d1, d, y, 0); }
    }
    assert forall|a: int| #[trigger] c.arc(a) && popped(st, k, e - 1, c.tl(a)) implies d[c.tl(a)] <= d[c.hd(a)] + g[a] by { }
}
pub proof fn lemma_dwn_fin(c: &CCH, sb: Sp, g: Seq<u32>, st: Seq<u32>, k: int, d1: Seq<u32>, d: Seq<u32>)
    requires cch_side(c, sb, g), stk(sb, st, k, -1, 0), dwn(c, g, st, k, d1, d, 0, -1, 0),
    ensures dfin(c, g, sb, d1, d)
{
    assert forall|y: int| #[trigger] popped(st, k, 0, y) == sb.cov(y) by {
        if sb.cov(y) { assert(sb.inr(sb.own(y), y)); assert(sb.proc(-1, 0, y)); }
        if popped(st, k, 0, y) { let j = choose|j: int| 0 <= j < k && #[trigger] st[j] == y; assert(sb.proc(-1, 0, y)); }
    }
    assert forall|y: int| 0 <= y < c.n() implies (#[trigger] d[y]) <= d1[y] && (if sb.cov(y) { wd(c, g, d1, d, y) } else { d[y] == d1[y] }) by { assert(popped(st, k, 0, y) == sb.cov(y)); }
    assert forall|a: int| #[trigger] c.arc(a) && sb.cov(c.tl(a)) implies d[c.tl(a)] <= d[c.hd(a)] + g[a] by { assert(popped(st, k, 0, c.tl(a))); }
}
impl CustomizableContractionHierarchyQuery {
    pub open spec fn pinned_t(&self, list: Seq<u32>) -> bool { self.target_node@.len() == list.len() && forall|i: int| 0 <= i < list.len() ==> #[trigger] self.target_node@[i] == self.c().rank@[list[i] as int] }
    pub open spec fn pinned_s(&self, list: Seq<u32>) -> bool { self.source_node@.len() == list.len() && forall|i: int| 0 <= i < list.len() ==> #[trigger] self.source_node@[i] == self.c().rank@[list[i] as int] }
}
pub proof fn lemma_uncovered(sp: Sp, ins: Seq<bool>, d: Seq<u32>)
    requires sp.wf(), none(sp), sp.ins_ok(ins), on(sp, d),
    ensures forall|y: int| 0 <= y < ins.len() ==> !(#[trigger] ins[y]), all_inf(d)
{
    assert forall|y: int| !(#[trigger] sp.cov(y)) by { if sp.cov(y) { assert(sp.inr(sp.own(y), y)); } }
}
// pinned nodes are covered
pub proof fn lemma_pinned_cov(sp: Sp, i: int)
    requires sp.wf(), 0 <= i < sp.nodes.len(),
    ensures sp.cov(sp.nodes[i] as int)
{
    lemma_start(sp, i);
    if sp.nodes[i] != sp.ends[i] { assert(sp.inr(i, sp.nodes[i] as int)); }
}
