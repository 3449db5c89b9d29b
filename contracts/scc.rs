// ---- graphs and reachability
pub open spec fn INVAL() -> u32 { 0xFFFF_FFFFu32 }
pub open spec fn graph_ok(fo: Seq<u32>, hd: Seq<u32>) -> bool {
    &&& 1 <= fo.len() <= 0xFFFF_FFFF
    &&& forall|i: int, j: int| 0 <= i <= j < fo.len() ==> #[trigger] fo[i] <= #[trigger] fo[j]
    &&& fo[fo.len() - 1] <= hd.len()
    &&& forall|a: int| 0 <= a < hd.len() ==> #[trigger] hd[a] < fo.len() - 1
}
pub open spec fn arc(fo: Seq<u32>, hd: Seq<u32>, u: int, v: int, a: int) -> bool { fo[u] <= a < fo[u + 1] && hd[a] == v }
pub open spec fn adj(fo: Seq<u32>, hd: Seq<u32>, u: int, v: int) -> bool { 0 <= u < fo.len() - 1 && exists|a: int| #[trigger] arc(fo, hd, u, v, a) }
pub open spec fn walk(fo: Seq<u32>, hd: Seq<u32>, p: Seq<int>, u: int, v: int) -> bool {
    &&& p.len() >= 1 && p[0] == u && p[p.len() - 1] == v
    &&& forall|i: int| 0 <= i < p.len() - 1 ==> adj(fo, hd, #[trigger] p[i], p[i + 1])
}
// v can be reached from u by following arcs
#[verifier::opaque]
pub open spec fn reach(fo: Seq<u32>, hd: Seq<u32>, u: int, v: int) -> bool { exists|p: Seq<int>| walk(fo, hd, p, u, v) }
pub open spec fn mutual(fo: Seq<u32>, hd: Seq<u32>, u: int, v: int) -> bool { reach(fo, hd, u, v) && reach(fo, hd, v, u) }
pub proof fn lem_reach_self(fo: Seq<u32>, hd: Seq<u32>, u: int) ensures reach(fo, hd, u, u) { reveal(reach); assert(walk(fo, hd, seq![u], u, u)); }
pub proof fn lem_reach_arc(fo: Seq<u32>, hd: Seq<u32>, u: int, a: int) requires 0 <= u < fo.len() - 1, fo[u] <= a < fo[u + 1] ensures reach(fo, hd, u, hd[a] as int)
{ reveal(reach); assert(arc(fo, hd, u, hd[a] as int, a)); assert(walk(fo, hd, seq![u, hd[a] as int], u, hd[a] as int)); }
pub proof fn lem_reach_adj(fo: Seq<u32>, hd: Seq<u32>, u: int, v: int) requires adj(fo, hd, u, v) ensures reach(fo, hd, u, v)
{ reveal(reach); assert(walk(fo, hd, seq![u, v], u, v)); }
pub proof fn lem_reach_trans(fo: Seq<u32>, hd: Seq<u32>, u: int, v: int, w: int) requires reach(fo, hd, u, v), reach(fo, hd, v, w) ensures reach(fo, hd, u, w)
{
    reveal(reach);
    let p = choose|p: Seq<int>| walk(fo, hd, p, u, v); let q = choose|q: Seq<int>| walk(fo, hd, q, v, w);
    let r = p + q.subrange(1, q.len() as int);
    assert forall|i: int| 0 <= i < r.len() - 1 implies adj(fo, hd, #[trigger] r[i], r[i + 1]) by {
        if i < p.len() - 1 { assert(adj(fo, hd, p[i], p[i + 1])); } else { let k = i - (p.len() - 1); assert(adj(fo, hd, q[k], q[k + 1])); assert(r[i] == q[k]); assert(r[i + 1] == q[k + 1]); }
    }
    assert(walk(fo, hd, r, u, w));
}
// a set closed under arcs is not left
pub proof fn lem_reach_closed(fo: Seq<u32>, hd: Seq<u32>, c: spec_fn(int) -> bool, u: int, v: int)
    requires c(u), reach(fo, hd, u, v), forall|z: int, a: int| 0 <= z < fo.len() - 1 && c(z) && fo[z] <= a < fo[z + 1] ==> #[trigger] arc(fo, hd, z, hd[a] as int, a) ==> c(hd[a] as int)
    ensures c(v)
{
    reveal(reach);
    let p = choose|p: Seq<int>| walk(fo, hd, p, u, v);
    lem_walk_closed(fo, hd, c, p, (p.len() - 1) as int, u, v);
}
proof fn lem_walk_closed(fo: Seq<u32>, hd: Seq<u32>, c: spec_fn(int) -> bool, p: Seq<int>, k: int, u: int, v: int)
    requires c(u), walk(fo, hd, p, u, v), 0 <= k < p.len(), forall|z: int, a: int| 0 <= z < fo.len() - 1 && c(z) && fo[z] <= a < fo[z + 1] ==> #[trigger] arc(fo, hd, z, hd[a] as int, a) ==> c(hd[a] as int)
    ensures c(p[k])
    decreases k
{
    if k > 0 {
        lem_walk_closed(fo, hd, c, p, k - 1, u, v);
        assert(adj(fo, hd, p[k - 1], p[k - 1 + 1]));
        let a = choose|a: int| #[trigger] arc(fo, hd, p[k - 1], p[k], a);
        assert(arc(fo, hd, p[k - 1], hd[a] as int, a));
    }
}
// ---- the state of the depth first search.  d: the search path (the last node may be new), ord: the nodes in the order of
// their discovery, par: the predecessor on the search tree, spos/dpos: positions in stk/d, gray: discovered and on the path
pub ghost struct St { pub fo: Seq<u32>, pub hd: Seq<u32>, pub pos: Seq<u32>, pub low: Seq<u32>, pub nxt: Seq<u32>, pub comp: Seq<u32>, pub onst: Seq<bool>, pub done: Seq<bool>,
    pub stk: Seq<u32>, pub d: Seq<u32>, pub cnt: int, pub par: Seq<int>, pub spos: Seq<int>, pub dpos: Seq<int>, pub gray: Seq<bool>, pub ord: Seq<int> }
impl St {
    pub open spec fn n(&self) -> int { self.fo.len() - 1 }
    pub open spec fn in_(&self, z: int) -> bool { 0 <= z < self.n() }
    pub open spec fn vis(&self, z: int) -> bool { self.pos[z] != INVAL() }
    pub open spec fn r(&self, u: int, v: int) -> bool { reach(self.fo, self.hd, u, v) }
    pub open spec fn lens(&self) -> bool {
        &&& graph_ok(self.fo, self.hd)
        &&& self.pos.len() == self.n() && self.low.len() == self.n() && self.nxt.len() == self.n() + 1 && self.comp.len() == self.n() && self.onst.len() == self.n() && self.done.len() == self.n()
        &&& self.par.len() == self.n() && self.spos.len() == self.n() && self.dpos.len() == self.n() && self.gray.len() == self.n()
    }
    pub open spec fn visits(&self) -> bool {
        &&& forall|z: int| self.in_(z) ==> #[trigger] self.pos[z] != INVAL() ==> self.pos[z] < self.ord.len() && self.ord[self.pos[z] as int] == z
        &&& forall|k: int| 0 <= k < self.ord.len() ==> self.in_(#[trigger] self.ord[k]) && self.pos[self.ord[k]] == k
        &&& forall|z: int| self.in_(z) ==> (#[trigger] self.pos[z] != INVAL()) == (self.onst[z] || self.done[z]) && !(self.onst[z] && self.done[z])
        &&& self.ord.len() <= self.n()
    }
    pub open spec fn stack(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.stk.len() ==> #[trigger] self.stk[i] < self.n() && self.onst[self.stk[i] as int] && self.spos[self.stk[i] as int] == i
        &&& forall|z: int| self.in_(z) && #[trigger] self.onst[z] ==> 0 <= self.spos[z] < self.stk.len() && self.stk[self.spos[z]] == z
        &&& forall|i: int, j: int| 0 <= i < j < self.stk.len() ==> self.pos[#[trigger] self.stk[i] as int] < self.pos[#[trigger] self.stk[j] as int]
        &&& self.cnt >= 0 && self.cnt + self.stk.len() <= self.ord.len()
    }
    pub open spec fn path(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.d.len() ==> #[trigger] self.d[i] < self.n() && (self.gray[self.d[i] as int] || (i == self.d.len() - 1 && !self.vis(self.d[i] as int)))
        &&& forall|z: int| self.in_(z) && #[trigger] self.gray[z] ==> self.onst[z] && 0 <= self.dpos[z] < self.d.len() && self.d[self.dpos[z]] == z
        &&& forall|i: int| 0 <= i < self.d.len() && self.gray[#[trigger] self.d[i] as int] ==> self.dpos[self.d[i] as int] == i
        &&& forall|i: int, j: int| 0 <= i < j < self.d.len() && self.gray[#[trigger] self.d[j] as int] ==> self.pos[#[trigger] self.d[i] as int] < self.pos[self.d[j] as int]
        &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < self.d.len() ==> self.steps(#[trigger] self.d[i] as int, #[trigger] self.d[j] as int)
        &&& self.stk.len() > 0 ==> self.d.len() > 0 && self.stk[0] == self.d[0]
        &&& self.d.len() > 0 && !self.vis(self.d[0] as int) ==> self.stk.len() == 0
    }
    // u is waiting for its successor v on the path
    pub open spec fn steps(&self, u: int, v: int) -> bool { self.nxt[u] < self.fo[u + 1] && self.hd[self.nxt[u] as int] == v && (self.gray[v] ==> self.par[v] == u) }
    pub open spec fn arcs(&self) -> bool {
        &&& forall|z: int| self.in_(z) ==> self.fo[z] <= #[trigger] self.nxt[z] <= self.fo[z + 1] && (!self.vis(z) ==> self.nxt[z] == self.fo[z])
        &&& forall|z: int, a: int| self.in_(z) && self.onst[z] && self.fo[z] <= a < self.nxt[z] ==> #[trigger] self.passed(z, a)
        &&& forall|z: int| self.in_(z) && self.onst[z] && !self.gray[z] ==> #[trigger] self.nxt[z] == self.fo[z + 1]
        &&& forall|z: int, a: int| self.in_(z) && self.done[z] && self.fo[z] <= a < self.fo[z + 1] ==> #[trigger] self.leads_done(z, a)
    }
    pub open spec fn passed(&self, z: int, a: int) -> bool { self.vis(self.hd[a] as int) && (self.onst[self.hd[a] as int] ==> self.low[z] <= self.pos[self.hd[a] as int]) }
    pub open spec fn leads_done(&self, z: int, a: int) -> bool { self.done[self.hd[a] as int] }
    pub open spec fn lows(&self) -> bool { forall|z: int| self.in_(z) && self.onst[z] ==> #[trigger] self.low_ok(z) }
    pub open spec fn low_ok(&self, z: int) -> bool {
        &&& self.low[z] <= self.pos[z]
        &&& self.onst[self.ord[self.low[z] as int]] && self.r(z, self.ord[self.low[z] as int])
        &&& !self.gray[z] ==> self.low[z] < self.pos[z]
    }
    pub open spec fn pend(&self, z: int) -> bool { self.d.len() > 0 && self.d[self.d.len() - 1] == self.par[z] && self.nxt[self.par[z]] < self.fo[self.par[z] + 1] && self.hd[self.nxt[self.par[z]] as int] == z }
    pub open spec fn tree(&self) -> bool {
        &&& forall|z: int| self.in_(z) && self.onst[z] && z != self.stk[0] ==> #[trigger] self.par_ok(z)
        &&& forall|z: int, g: int| self.in_(z) && self.in_(g) && self.onst[z] && self.gray[g] && self.pos[g] < self.pos[z] ==> #[trigger] self.below(g, z)
    }
    pub open spec fn par_ok(&self, z: int) -> bool {
        &&& self.in_(self.par[z]) && self.onst[self.par[z]] && self.pos[self.par[z]] < self.pos[z] && adj(self.fo, self.hd, self.par[z], z)
        &&& !self.gray[z] ==> self.low[self.par[z]] <= self.low[z] || self.pend(z)
    }
    // the search tree hangs together below the path
    pub open spec fn below(&self, g: int, z: int) -> bool { self.pos[g] <= self.pos[self.par[z]] }
    pub open spec fn comps(&self) -> bool {
        &&& forall|z: int| self.in_(z) && self.done[z] ==> #[trigger] self.comp[z] < self.cnt
        &&& forall|u: int, v: int| self.in_(u) && self.in_(v) && self.done[u] && self.done[v] ==> (#[trigger] self.comp[u] == #[trigger] self.comp[v]) == mutual(self.fo, self.hd, u, v)
    }
    #[verifier::opaque]
    pub open spec fn inv(&self) -> bool { self.lens() && self.visits() && self.stack() && self.path() && self.arcs() && self.lows() && self.tree() && self.comps() }
}
proof fn lem_distinct(t: Seq<int>, n: int)
    requires forall|i: int| 0 <= i < t.len() ==> 0 <= #[trigger] t[i] < n, forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i] != #[trigger] t[j], n >= 0
    ensures t.len() <= n
{
    assert(t.no_duplicates());
    t.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    assert(t.to_set().subset_of(vstd::set_lib::set_int_range(0, n))) by { assert forall|z: int| t.to_set().contains(z) implies vstd::set_lib::set_int_range(0, n).contains(z) by { let k = choose|k: int| 0 <= k < t.len() && t[k] == z; assert(0 <= t[k] < n); } }
    vstd::set_lib::lemma_len_subset(t.to_set(), vstd::set_lib::set_int_range(0, n));
}
// ---- discovering the new last node of the path
pub open spec fn after_visit(s: St, x: int) -> St {
    St { pos: s.pos.update(x, s.ord.len() as u32), low: s.low.update(x, s.ord.len() as u32), onst: s.onst.update(x, true), stk: s.stk.push(x as u32), par: s.par.update(x, if s.d.len() > 1 { s.d[s.d.len() - 2] as int } else { 0 }),
        spos: s.spos.update(x, s.stk.len() as int), dpos: s.dpos.update(x, s.d.len() - 1), gray: s.gray.update(x, true), ord: s.ord.push(x), ..s }
}
pub proof fn lem_room(s: St, x: int)
    requires s.inv(), s.in_(x), !s.vis(x)
    ensures s.ord.len() < s.n(), s.stk.len() < s.n()
{
    reveal(St::inv);
    let t = s.ord.push(x);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] != #[trigger] t[j] by { assert(s.pos[s.ord[i]] == i); if j < s.ord.len() { assert(s.pos[s.ord[j]] == j); } }
    lem_distinct(t, s.n());
}
proof fn lem_hd(s: St, z: int, a: int) requires s.lens(), s.in_(z), s.fo[z] <= a < s.fo[z + 1] || s.arcs() && s.fo[z] <= a < s.nxt[z] ensures 0 <= a < s.hd.len(), s.in_(s.hd[a] as int), a < s.fo[z + 1]
{ assert(s.fo[z + 1] <= s.fo[s.n()]); if s.arcs() { assert(s.nxt[z] <= s.fo[z + 1]); } }
// the bottom of the stack is the oldest
proof fn lem_bottom(s: St, g: int) requires s.visits(), s.stack(), s.lens(), s.in_(g), s.onst[g] ensures s.stk.len() > 0, s.pos[s.stk[0] as int] <= s.pos[g]
{ assert(s.stk[s.spos[g]] == g); if s.spos[g] > 0 { assert(s.pos[s.stk[0] as int] < s.pos[s.stk[s.spos[g]] as int]); } }
proof fn lem_visit_lens(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() > 0, s.d[s.d.len() - 1] == x, !s.vis(x)
    ensures after_visit(s, x).lens()
{
    reveal(St::inv);
    let t = after_visit(s, x);
    lem_room(s, x);
    let k = s.ord.len() as int;
    let l = s.d.len() as int;
}
proof fn lem_visit_visits(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() > 0, s.d[s.d.len() - 1] == x, !s.vis(x)
    ensures after_visit(s, x).visits()
{
    reveal(St::inv);
    let t = after_visit(s, x);
    lem_room(s, x);
    let k = s.ord.len() as int;
    let l = s.d.len() as int;
    assert forall|z: int| t.in_(z) implies #[trigger] t.pos[z] != INVAL() ==> t.pos[z] < t.ord.len() && t.ord[t.pos[z] as int] == z by { if z != x { assert(t.pos[z] == s.pos[z]); } }
    assert forall|i: int| 0 <= i < t.ord.len() implies t.in_(#[trigger] t.ord[i]) && t.pos[t.ord[i]] == i by { if i < k { assert(s.in_(s.ord[i]) && s.pos[s.ord[i]] == i); } }
    assert forall|z: int| t.in_(z) implies (#[trigger] t.pos[z] != INVAL()) == (t.onst[z] || t.done[z]) && !(t.onst[z] && t.done[z]) by { assert(s.pos[z] != INVAL() || s.pos[z] == INVAL()); }
}
proof fn lem_visit_stack(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() > 0, s.d[s.d.len() - 1] == x, !s.vis(x)
    ensures after_visit(s, x).stack()
{
    reveal(St::inv);
    let t = after_visit(s, x);
    lem_room(s, x);
    let k = s.ord.len() as int;
    let l = s.d.len() as int;
    assert forall|i: int| 0 <= i < t.stk.len() implies #[trigger] t.stk[i] < t.n() && t.onst[t.stk[i] as int] && t.spos[t.stk[i] as int] == i by { if i < s.stk.len() { assert(s.stk[i] < s.n()); assert(s.pos[s.stk[i] as int] != INVAL()); } }
    assert forall|i: int, j: int| 0 <= i < j < t.stk.len() implies t.pos[#[trigger] t.stk[i] as int] < t.pos[#[trigger] t.stk[j] as int] by {
        assert(s.stk[i] < s.n() && s.onst[s.stk[i] as int]); assert(s.pos[s.stk[i] as int] < k);
        if j < s.stk.len() { assert(s.stk[j] < s.n() && s.onst[s.stk[j] as int]); assert(s.pos[s.stk[j] as int] < k); assert(s.pos[s.stk[i] as int] < s.pos[s.stk[j] as int]); }
    }
}
proof fn lem_visit_path(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() > 0, s.d[s.d.len() - 1] == x, !s.vis(x)
    ensures after_visit(s, x).path()
{
    reveal(St::inv);
    let t = after_visit(s, x);
    lem_room(s, x);
    let k = s.ord.len() as int;
    let l = s.d.len() as int;
    assert forall|i: int| 0 <= i < l implies #[trigger] t.d[i] < t.n() && t.gray[t.d[i] as int] by { assert(s.d[i] < s.n()); if i < l - 1 { assert(s.gray[s.d[i] as int]); } }
    assert forall|z: int| t.in_(z) && #[trigger] t.gray[z] implies t.onst[z] && 0 <= t.dpos[z] < t.d.len() && t.d[t.dpos[z]] == z by { if z != x { assert(s.gray[z]); } }
    assert forall|i: int| 0 <= i < t.d.len() && t.gray[#[trigger] t.d[i] as int] implies t.dpos[t.d[i] as int] == i by { if i < l - 1 { assert(s.gray[s.d[i] as int]); assert(s.vis(s.d[i] as int)); } }
    assert forall|i: int, j: int| 0 <= i < j < t.d.len() && t.gray[#[trigger] t.d[j] as int] implies t.pos[#[trigger] t.d[i] as int] < t.pos[t.d[j] as int] by {
        assert(s.gray[s.d[i] as int]); assert(s.vis(s.d[i] as int)); assert(s.pos[s.d[i] as int] < k);
        if j < l - 1 { assert(s.gray[s.d[j] as int]); assert(s.vis(s.d[j] as int)); }
    }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.d.len() implies t.steps(#[trigger] t.d[i] as int, #[trigger] t.d[j] as int) by {
        assert(s.gray[s.d[i] as int]); assert(s.steps(s.d[i] as int, s.d[j] as int)); if j < l - 1 { assert(s.gray[s.d[j] as int]); assert(s.d[j] != x) by { assert(s.vis(s.d[j] as int)); } }
    }
    if s.stk.len() > 0 { assert(t.stk[0] == s.stk[0]); } else { if l > 1 { assert(s.gray[s.d[0] as int]); assert(s.onst[s.d[0] as int]); } }
}
proof fn lem_visit_arcs(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() > 0, s.d[s.d.len() - 1] == x, !s.vis(x)
    ensures after_visit(s, x).arcs()
{
    reveal(St::inv);
    let t = after_visit(s, x);
    lem_room(s, x);
    let k = s.ord.len() as int;
    let l = s.d.len() as int;
    assert forall|z: int| t.in_(z) implies t.fo[z] <= #[trigger] t.nxt[z] <= t.fo[z + 1] && (!t.vis(z) ==> t.nxt[z] == t.fo[z]) by { assert(s.nxt[z] >= s.fo[z]); }
    assert forall|z: int, a: int| t.in_(z) && t.onst[z] && t.fo[z] <= a < t.nxt[z] implies #[trigger] t.passed(z, a) by { if z != x { assert(s.passed(z, a)); lem_hd(s, z, a); } else { assert(s.nxt[x] == s.fo[x]); } }
    assert forall|z: int| t.in_(z) && t.onst[z] && !t.gray[z] implies #[trigger] t.nxt[z] == t.fo[z + 1] by { assert(z != x); }
    assert forall|z: int, a: int| t.in_(z) && t.done[z] && t.fo[z] <= a < t.fo[z + 1] implies #[trigger] t.leads_done(z, a) by { assert(s.leads_done(z, a)); }
}
proof fn lem_visit_lows(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() > 0, s.d[s.d.len() - 1] == x, !s.vis(x)
    ensures after_visit(s, x).lows()
{
    reveal(St::inv);
    let t = after_visit(s, x);
    lem_room(s, x);
    let k = s.ord.len() as int;
    let l = s.d.len() as int;
    assert forall|z: int| t.in_(z) && t.onst[z] implies #[trigger] t.low_ok(z) by {
        if z == x { lem_reach_self(s.fo, s.hd, x); } else { assert(s.onst[z]); assert(s.low_ok(z)); assert(s.vis(z)); assert(t.ord[t.low[z] as int] == s.ord[s.low[z] as int]); assert(s.in_(s.ord[s.low[z] as int])); }
    }
}
proof fn lem_visit_tree(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() > 0, s.d[s.d.len() - 1] == x, !s.vis(x)
    ensures after_visit(s, x).tree()
{
    reveal(St::inv);
    let t = after_visit(s, x);
    lem_room(s, x);
    let k = s.ord.len() as int;
    let l = s.d.len() as int;
    assert forall|z: int| t.in_(z) && t.onst[z] && z != t.stk[0] implies #[trigger] t.par_ok(z) by {
        if z == x {
            assert(s.stk.len() > 0);
            assert(l > 1);
            let y = s.d[l - 2] as int;
            assert(s.gray[y]); assert(s.onst[y]); assert(s.vis(y)); assert(s.steps(s.d[l - 2] as int, s.d[l - 1] as int));
            assert(arc(s.fo, s.hd, y, x, s.nxt[y] as int));
        } else { assert(s.onst[z]); assert(s.stk.len() > 0); assert(t.stk[0] == s.stk[0]); assert(z != s.stk[0]); assert(s.par_ok(z)); assert(s.vis(s.par[z])); assert(s.par[z] != x); assert(!s.pend(z)); }
    }
    assert forall|z: int, g: int| t.in_(z) && t.in_(g) && t.onst[z] && t.gray[g] && t.pos[g] < t.pos[z] implies #[trigger] t.below(g, z) by {
        if g == x { assert(s.vis(z)); } else {
            assert(s.gray[g]); assert(s.vis(g));
            if z == x { assert(s.d[s.dpos[g]] == g); let y = s.d[l - 2] as int; assert(s.dpos[g] < l - 1) ; assert(s.gray[y]); if s.dpos[g] < l - 2 { assert(s.pos[s.d[s.dpos[g]] as int] < s.pos[s.d[l - 2] as int]); } assert(s.vis(y)); }
            else { assert(s.onst[z]); assert(s.onst[g]); lem_bottom(s, g); if z != s.stk[0] { assert(s.below(g, z)); assert(s.par_ok(z)); assert(s.vis(s.par[z])); assert(s.par[z] != x); } }
        }
    }
}
proof fn lem_visit_comps(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() > 0, s.d[s.d.len() - 1] == x, !s.vis(x)
    ensures after_visit(s, x).comps()
{
    reveal(St::inv);
    let t = after_visit(s, x);
    lem_room(s, x);
    let k = s.ord.len() as int;
    let l = s.d.len() as int;
    assert forall|z: int| t.in_(z) && t.done[z] implies #[trigger] t.comp[z] < t.cnt by { assert(s.comp[z] < s.cnt); }
    assert forall|u: int, v: int| t.in_(u) && t.in_(v) && t.done[u] && t.done[v] implies (#[trigger] t.comp[u] == #[trigger] t.comp[v]) == mutual(t.fo, t.hd, u, v) by { assert((s.comp[u] == s.comp[v]) == mutual(s.fo, s.hd, u, v)); }
}
pub proof fn lem_visit(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() > 0, s.d[s.d.len() - 1] == x, !s.vis(x)
    ensures after_visit(s, x).inv(), s.ord.len() < s.n(), s.stk.len() < s.n()
{
    lem_room(s, x);
    let t = after_visit(s, x);
    lem_visit_lens(s, x);
    lem_visit_visits(s, x);
    lem_visit_stack(s, x);
    lem_visit_path(s, x);
    lem_visit_arcs(s, x);
    lem_visit_lows(s, x);
    lem_visit_tree(s, x);
    lem_visit_comps(s, x);
    reveal(St::inv);
}
// ---- the next arc of the last node of the path leads to a discovered node
pub open spec fn after_arc(s: St, x: int) -> St {
    St { nxt: s.nxt.update(x, (s.nxt[x] + 1) as u32), low: s.low.update(x, arc_low(s, x, s.hd[s.nxt[x] as int] as int)), ..s }
}
pub open spec fn arc_low(s: St, x: int, y: int) -> u32 { if s.onst[y] && s.low[y] < s.low[x] { s.low[y] } else { s.low[x] } }
pub open spec fn at_last(s: St, x: int) -> bool { s.in_(x) && s.d.len() > 0 && s.d[s.d.len() - 1] == x && s.gray[x] }
proof fn lem_arc_lens(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_arc(s, x).lens()
{
    reveal(St::inv);
    let t = after_arc(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.fo[x + 1] <= s.fo[s.n()]);
    assert(s.onst[y] ==> s.low_ok(y));
}
proof fn lem_arc_visits(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_arc(s, x).visits()
{
    reveal(St::inv);
    let t = after_arc(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.fo[x + 1] <= s.fo[s.n()]);
    assert(s.onst[y] ==> s.low_ok(y));
    assert forall|z: int| t.in_(z) implies #[trigger] t.pos[z] != INVAL() ==> t.pos[z] < t.ord.len() && t.ord[t.pos[z] as int] == z by { assert(s.pos[z] == t.pos[z]); }
    assert forall|i: int| 0 <= i < t.ord.len() implies t.in_(#[trigger] t.ord[i]) && t.pos[t.ord[i]] == i by { assert(s.in_(s.ord[i]) && s.pos[s.ord[i]] == i); }
    assert forall|z: int| t.in_(z) implies (#[trigger] t.pos[z] != INVAL()) == (t.onst[z] || t.done[z]) && !(t.onst[z] && t.done[z]) by { assert(s.pos[z] != INVAL() || s.pos[z] == INVAL()); }
}
proof fn lem_arc_stack(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_arc(s, x).stack()
{
    reveal(St::inv);
    let t = after_arc(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.fo[x + 1] <= s.fo[s.n()]);
    assert(s.onst[y] ==> s.low_ok(y));
}
proof fn lem_arc_path(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_arc(s, x).path()
{
    reveal(St::inv);
    let t = after_arc(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.fo[x + 1] <= s.fo[s.n()]);
    assert(s.onst[y] ==> s.low_ok(y));
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.d.len() implies t.steps(#[trigger] t.d[i] as int, #[trigger] t.d[j] as int) by {
        assert(s.steps(s.d[i] as int, s.d[j] as int)); assert(s.dpos[x] == l - 1); assert(s.d[i] < s.n()); assert(s.gray[s.d[i] as int]); assert(s.d[i] != x);
    }
    assert forall|i: int| 0 <= i < t.d.len() implies #[trigger] t.d[i] < t.n() && (t.gray[t.d[i] as int] || (i == t.d.len() - 1 && !t.vis(t.d[i] as int))) by { assert(s.d[i] < s.n()); }
}
proof fn lem_arc_arcs(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_arc(s, x).arcs()
{
    reveal(St::inv);
    let t = after_arc(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.fo[x + 1] <= s.fo[s.n()]);
    assert(s.onst[y] ==> s.low_ok(y));
    assert forall|z: int| t.in_(z) implies t.fo[z] <= #[trigger] t.nxt[z] <= t.fo[z + 1] && (!t.vis(z) ==> t.nxt[z] == t.fo[z]) by { assert(s.nxt[z] >= s.fo[z]); assert(s.vis(x)); }
    assert forall|z: int, a: int| t.in_(z) && t.onst[z] && t.fo[z] <= a < t.nxt[z] implies #[trigger] t.passed(z, a) by { if z != x || a < e { assert(s.passed(z, a)); } }
    assert forall|z: int| t.in_(z) && t.onst[z] && !t.gray[z] implies #[trigger] t.nxt[z] == t.fo[z + 1] by { assert(s.nxt[z] == s.fo[z + 1]); }
    assert forall|z: int, a: int| t.in_(z) && t.done[z] && t.fo[z] <= a < t.fo[z + 1] implies #[trigger] t.leads_done(z, a) by { assert(s.leads_done(z, a)); }
}
proof fn lem_arc_lows(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_arc(s, x).lows()
{
    reveal(St::inv);
    let t = after_arc(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.fo[x + 1] <= s.fo[s.n()]);
    assert(s.onst[y] ==> s.low_ok(y));
    assert forall|z: int| t.in_(z) && t.onst[z] implies #[trigger] t.low_ok(z) by {
        assert(s.low_ok(z));
        if z == x { lem_reach_arc(s.fo, s.hd, x, e); if s.onst[y] { lem_reach_trans(s.fo, s.hd, x, y, s.ord[s.low[y] as int]); } }
    }
}
proof fn lem_arc_tree(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_arc(s, x).tree()
{
    reveal(St::inv);
    let t = after_arc(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.fo[x + 1] <= s.fo[s.n()]);
    assert(s.onst[y] ==> s.low_ok(y));
    assert forall|z: int| t.in_(z) && t.onst[z] && z != t.stk[0] implies #[trigger] t.par_ok(z) by { assert(s.par_ok(z)); if !t.gray[z] && s.pend(z) { assert(z == y); } }
    assert forall|z: int, g: int| t.in_(z) && t.in_(g) && t.onst[z] && t.gray[g] && t.pos[g] < t.pos[z] implies #[trigger] t.below(g, z) by { assert(s.below(g, z)); }
}
proof fn lem_arc_comps(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_arc(s, x).comps()
{
    reveal(St::inv);
    let t = after_arc(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.fo[x + 1] <= s.fo[s.n()]);
    assert(s.onst[y] ==> s.low_ok(y));
    assert forall|z: int| t.in_(z) && t.done[z] implies #[trigger] t.comp[z] < t.cnt by { assert(s.comp[z] < s.cnt); }
    assert forall|u: int, v: int| t.in_(u) && t.in_(v) && t.done[u] && t.done[v] implies (#[trigger] t.comp[u] == #[trigger] t.comp[v]) == mutual(t.fo, t.hd, u, v) by { assert((s.comp[u] == s.comp[v]) == mutual(s.fo, s.hd, u, v)); }
}
pub proof fn lem_arc(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_arc(s, x).inv()
{
    let t = after_arc(s, x);
    lem_arc_lens(s, x);
    lem_arc_visits(s, x);
    lem_arc_stack(s, x);
    lem_arc_path(s, x);
    lem_arc_arcs(s, x);
    lem_arc_lows(s, x);
    lem_arc_tree(s, x);
    lem_arc_comps(s, x);
    reveal(St::inv);
}
// ---- the next arc of the last node of the path leads to a new node
pub open spec fn after_push(s: St, x: int) -> St { St { d: s.d.push(s.hd[s.nxt[x] as int]), ..s } }
proof fn lem_push_lens(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], !s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_push(s, x).lens()
{
    reveal(St::inv);
    let t = after_push(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(!s.onst[y]); assert(!s.gray[y]);
}
proof fn lem_push_visits(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], !s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_push(s, x).visits()
{
    reveal(St::inv);
    let t = after_push(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(!s.onst[y]); assert(!s.gray[y]);
    assert forall|z: int| t.in_(z) implies #[trigger] t.pos[z] != INVAL() ==> t.pos[z] < t.ord.len() && t.ord[t.pos[z] as int] == z by { assert(s.pos[z] == t.pos[z]); }
    assert forall|i: int| 0 <= i < t.ord.len() implies t.in_(#[trigger] t.ord[i]) && t.pos[t.ord[i]] == i by { assert(s.in_(s.ord[i]) && s.pos[s.ord[i]] == i); }
    assert forall|z: int| t.in_(z) implies (#[trigger] t.pos[z] != INVAL()) == (t.onst[z] || t.done[z]) && !(t.onst[z] && t.done[z]) by { assert(s.pos[z] != INVAL() || s.pos[z] == INVAL()); }
}
proof fn lem_push_stack(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], !s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_push(s, x).stack()
{
    reveal(St::inv);
    let t = after_push(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(!s.onst[y]); assert(!s.gray[y]);
}
proof fn lem_push_path(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], !s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_push(s, x).path()
{
    reveal(St::inv);
    let t = after_push(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(!s.onst[y]); assert(!s.gray[y]);
    assert forall|i: int| 0 <= i < t.d.len() implies #[trigger] t.d[i] < t.n() && (t.gray[t.d[i] as int] || (i == t.d.len() - 1 && !t.vis(t.d[i] as int))) by { if i < l { assert(s.d[i] < s.n()); } }
    assert forall|z: int| t.in_(z) && #[trigger] t.gray[z] implies t.onst[z] && 0 <= t.dpos[z] < t.d.len() && t.d[t.dpos[z]] == z by { assert(s.gray[z]); }
    assert forall|i: int| 0 <= i < t.d.len() && t.gray[#[trigger] t.d[i] as int] implies t.dpos[t.d[i] as int] == i by { assert(s.gray[s.d[i] as int]); }
    assert forall|i: int, j: int| 0 <= i < j < t.d.len() && t.gray[#[trigger] t.d[j] as int] implies t.pos[#[trigger] t.d[i] as int] < t.pos[t.d[j] as int] by { assert(s.gray[s.d[j] as int]); assert(s.d[i] == t.d[i]); }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.d.len() implies t.steps(#[trigger] t.d[i] as int, #[trigger] t.d[j] as int) by { if j < l { assert(s.steps(s.d[i] as int, s.d[j] as int)); } }
    assert(s.d[0] == t.d[0]); assert(s.gray[s.d[0] as int]); assert(s.onst[s.d[0] as int]); assert(s.vis(s.d[0] as int));
}
proof fn lem_push_arcs(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], !s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_push(s, x).arcs()
{
    reveal(St::inv);
    let t = after_push(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(!s.onst[y]); assert(!s.gray[y]);
    assert forall|z: int| t.in_(z) implies t.fo[z] <= #[trigger] t.nxt[z] <= t.fo[z + 1] && (!t.vis(z) ==> t.nxt[z] == t.fo[z]) by { assert(s.nxt[z] >= s.fo[z]); }
    assert forall|z: int, a: int| t.in_(z) && t.onst[z] && t.fo[z] <= a < t.nxt[z] implies #[trigger] t.passed(z, a) by { assert(s.passed(z, a)); }
    assert forall|z: int, a: int| t.in_(z) && t.done[z] && t.fo[z] <= a < t.fo[z + 1] implies #[trigger] t.leads_done(z, a) by { assert(s.leads_done(z, a)); }
}
proof fn lem_push_lows(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], !s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_push(s, x).lows()
{
    reveal(St::inv);
    let t = after_push(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(!s.onst[y]); assert(!s.gray[y]);
    assert forall|z: int| t.in_(z) && t.onst[z] implies #[trigger] t.low_ok(z) by { assert(s.low_ok(z)); }
}
proof fn lem_push_tree(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], !s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_push(s, x).tree()
{
    reveal(St::inv);
    let t = after_push(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(!s.onst[y]); assert(!s.gray[y]);
    assert forall|z: int| t.in_(z) && t.onst[z] && z != t.stk[0] implies #[trigger] t.par_ok(z) by { assert(s.par_ok(z)); assert(s.vis(z)); assert(!s.pend(z)); }
    assert forall|z: int, g: int| t.in_(z) && t.in_(g) && t.onst[z] && t.gray[g] && t.pos[g] < t.pos[z] implies #[trigger] t.below(g, z) by { assert(s.below(g, z)); }
}
proof fn lem_push_comps(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], !s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_push(s, x).comps()
{
    reveal(St::inv);
    let t = after_push(s, x);
    let e = s.nxt[x] as int;
    lem_hd(s, x, e);
    let y = s.hd[e] as int;
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(!s.onst[y]); assert(!s.gray[y]);
    assert forall|z: int| t.in_(z) && t.done[z] implies #[trigger] t.comp[z] < t.cnt by { assert(s.comp[z] < s.cnt); }
    assert forall|u: int, v: int| t.in_(u) && t.in_(v) && t.done[u] && t.done[v] implies (#[trigger] t.comp[u] == #[trigger] t.comp[v]) == mutual(t.fo, t.hd, u, v) by { assert((s.comp[u] == s.comp[v]) == mutual(s.fo, s.hd, u, v)); }
}
pub proof fn lem_push(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] < s.fo[x + 1], !s.vis(s.hd[s.nxt[x] as int] as int)
    ensures after_push(s, x).inv()
{
    let t = after_push(s, x);
    lem_push_lens(s, x);
    lem_push_visits(s, x);
    lem_push_stack(s, x);
    lem_push_path(s, x);
    lem_push_arcs(s, x);
    lem_push_lows(s, x);
    lem_push_tree(s, x);
    lem_push_comps(s, x);
    reveal(St::inv);
}
// ---- the last node of the path has no arcs left and is not the oldest of its component
pub open spec fn after_leave(s: St, x: int) -> St { St { d: s.d.drop_last(), gray: s.gray.update(x, false), ..s } }
proof fn lem_leave_len(s: St, x: int)
    requires s.inv(), at_last(s, x), s.low[x] != s.pos[x]
    ensures s.d.len() > 1, s.gray[s.d[s.d.len() - 2] as int], s.d[s.d.len() - 2] != x, s.steps(s.d[s.d.len() - 2] as int, x), s.par[x] == s.d[s.d.len() - 2], s.low[x] < s.pos[x]
{
    reveal(St::inv);
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.vis(x));
    let w = s.ord[s.low[x] as int];
    assert(s.in_(w) && s.pos[w] == s.low[x]);
    lem_bottom(s, w);
    assert(s.stk[0] == s.d[0]);
    assert(l > 1);
    assert(s.d[l - 2] < s.n()); assert(s.gray[s.d[l - 2] as int]); assert(s.steps(s.d[l - 2] as int, s.d[l - 1] as int));
    assert(s.dpos[s.d[l - 2] as int] == l - 2); assert(s.dpos[s.d[l - 1] as int] == l - 1);
}
proof fn lem_leave_lens(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] != s.pos[x]
    ensures after_leave(s, x).lens()
{
    reveal(St::inv);
    let t = after_leave(s, x);
    let l = s.d.len() as int;
    lem_leave_len(s, x);
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
}
proof fn lem_leave_visits(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] != s.pos[x]
    ensures after_leave(s, x).visits()
{
    reveal(St::inv);
    let t = after_leave(s, x);
    let l = s.d.len() as int;
    lem_leave_len(s, x);
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    assert forall|z: int| t.in_(z) implies #[trigger] t.pos[z] != INVAL() ==> t.pos[z] < t.ord.len() && t.ord[t.pos[z] as int] == z by { assert(s.pos[z] == t.pos[z]); }
    assert forall|i: int| 0 <= i < t.ord.len() implies t.in_(#[trigger] t.ord[i]) && t.pos[t.ord[i]] == i by { assert(s.in_(s.ord[i]) && s.pos[s.ord[i]] == i); }
    assert forall|z: int| t.in_(z) implies (#[trigger] t.pos[z] != INVAL()) == (t.onst[z] || t.done[z]) && !(t.onst[z] && t.done[z]) by { assert(s.pos[z] != INVAL() || s.pos[z] == INVAL()); }
}
proof fn lem_leave_stack(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] != s.pos[x]
    ensures after_leave(s, x).stack()
{
    reveal(St::inv);
    let t = after_leave(s, x);
    let l = s.d.len() as int;
    lem_leave_len(s, x);
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
}
proof fn lem_leave_path(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] != s.pos[x]
    ensures after_leave(s, x).path()
{
    reveal(St::inv);
    let t = after_leave(s, x);
    let l = s.d.len() as int;
    lem_leave_len(s, x);
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    assert forall|i: int| 0 <= i < l - 1 implies #[trigger] s.d[i] < s.n() && s.d[i] != x && s.gray[s.d[i] as int] by { assert(s.d[i] < s.n()); assert(s.gray[s.d[i] as int]); assert(s.dpos[s.d[i] as int] == i); }
    assert forall|i: int| 0 <= i < t.d.len() implies #[trigger] t.d[i] < t.n() && (t.gray[t.d[i] as int] || (i == t.d.len() - 1 && !t.vis(t.d[i] as int))) by { assert(s.d[i] < s.n() && s.d[i] != x); }
    assert forall|z: int| t.in_(z) && #[trigger] t.gray[z] implies t.onst[z] && 0 <= t.dpos[z] < t.d.len() && t.d[t.dpos[z]] == z by { assert(s.gray[z]); assert(z != x); assert(s.d[s.dpos[z]] == z); }
    assert forall|i: int, j: int| 0 <= i < j < t.d.len() && t.gray[#[trigger] t.d[j] as int] implies t.pos[#[trigger] t.d[i] as int] < t.pos[t.d[j] as int] by { assert(s.gray[s.d[j] as int]); assert(s.d[i] == t.d[i]); }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.d.len() implies t.steps(#[trigger] t.d[i] as int, #[trigger] t.d[j] as int) by { assert(s.steps(s.d[i] as int, s.d[j] as int)); assert(s.d[j] != x); }
    assert(s.d[0] == t.d[0]);
    assert(s.gray[s.d[0] as int]); assert(s.onst[s.d[0] as int]);
}
proof fn lem_leave_arcs(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] != s.pos[x]
    ensures after_leave(s, x).arcs()
{
    reveal(St::inv);
    let t = after_leave(s, x);
    let l = s.d.len() as int;
    lem_leave_len(s, x);
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    assert forall|z: int| t.in_(z) implies t.fo[z] <= #[trigger] t.nxt[z] <= t.fo[z + 1] && (!t.vis(z) ==> t.nxt[z] == t.fo[z]) by { assert(s.nxt[z] >= s.fo[z]); }
    assert forall|z: int, a: int| t.in_(z) && t.onst[z] && t.fo[z] <= a < t.nxt[z] implies #[trigger] t.passed(z, a) by { assert(s.passed(z, a)); }
    assert forall|z: int| t.in_(z) && t.onst[z] && !t.gray[z] implies #[trigger] t.nxt[z] == t.fo[z + 1] by { if z != x { assert(!s.gray[z]); } }
    assert forall|z: int, a: int| t.in_(z) && t.done[z] && t.fo[z] <= a < t.fo[z + 1] implies #[trigger] t.leads_done(z, a) by { assert(s.leads_done(z, a)); }
}
proof fn lem_leave_lows(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] != s.pos[x]
    ensures after_leave(s, x).lows()
{
    reveal(St::inv);
    let t = after_leave(s, x);
    let l = s.d.len() as int;
    lem_leave_len(s, x);
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    assert forall|z: int| t.in_(z) && t.onst[z] implies #[trigger] t.low_ok(z) by { assert(s.low_ok(z)); }
}
proof fn lem_leave_tree(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] != s.pos[x]
    ensures after_leave(s, x).tree()
{
    reveal(St::inv);
    let t = after_leave(s, x);
    let l = s.d.len() as int;
    lem_leave_len(s, x);
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    assert forall|z: int| t.in_(z) && t.onst[z] && z != t.stk[0] implies #[trigger] t.par_ok(z) by { assert(s.par_ok(z)); if z != x { assert(!s.pend(z)); } else { assert(t.d[t.d.len() - 1] == s.d[l - 2]); assert(t.pend(x)); } }
    assert forall|z: int, g: int| t.in_(z) && t.in_(g) && t.onst[z] && t.gray[g] && t.pos[g] < t.pos[z] implies #[trigger] t.below(g, z) by { assert(s.below(g, z)); }
}
proof fn lem_leave_comps(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] != s.pos[x]
    ensures after_leave(s, x).comps()
{
    reveal(St::inv);
    let t = after_leave(s, x);
    let l = s.d.len() as int;
    lem_leave_len(s, x);
    assert(s.gray[x]); assert(s.onst[x]); assert(s.low_ok(x)); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    assert forall|z: int| t.in_(z) && t.done[z] implies #[trigger] t.comp[z] < t.cnt by { assert(s.comp[z] < s.cnt); }
    assert forall|u: int, v: int| t.in_(u) && t.in_(v) && t.done[u] && t.done[v] implies (#[trigger] t.comp[u] == #[trigger] t.comp[v]) == mutual(t.fo, t.hd, u, v) by { assert((s.comp[u] == s.comp[v]) == mutual(s.fo, s.hd, u, v)); }
}
pub proof fn lem_leave(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] != s.pos[x]
    ensures after_leave(s, x).inv()
{
    let t = after_leave(s, x);
    lem_leave_lens(s, x);
    lem_leave_visits(s, x);
    lem_leave_stack(s, x);
    lem_leave_path(s, x);
    lem_leave_arcs(s, x);
    lem_leave_lows(s, x);
    lem_leave_tree(s, x);
    lem_leave_comps(s, x);
    reveal(St::inv);
}
// ---- the last node of the path is the oldest of its component: the nodes above it on the stack are the component
pub open spec fn cut(s: St, x: int, z: int) -> bool { s.onst[z] && s.spos[z] >= s.spos[x] }
pub open spec fn after_root(s: St, x: int) -> St {
    St { onst: Seq::new(s.onst.len(), |z: int| s.onst[z] && !cut(s, x, z)), done: Seq::new(s.done.len(), |z: int| s.done[z] || cut(s, x, z)), comp: Seq::new(s.comp.len(), |z: int| if cut(s, x, z) { s.cnt as u32 } else { s.comp[z] }),
        stk: s.stk.take(s.spos[x]), cnt: s.cnt + 1, d: s.d.drop_last(), gray: s.gray.update(x, false), ..s }
}
proof fn lem_cut(s: St, x: int, z: int)
    requires s.inv(), at_last(s, x), s.in_(z), s.onst[z]
    ensures cut(s, x, z) == (s.pos[z] >= s.pos[x]), s.gray[z] && z != x ==> !cut(s, x, z), s.onst[x], s.vis(x), s.vis(z), s.low_ok(z), s.pos[z] == s.pos[x] ==> z == x, 0 <= s.spos[x] < s.stk.len()
{
    reveal(St::inv);
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(s.vis(z)); assert(s.low_ok(z));
    assert(s.stk[s.spos[x]] == x); assert(s.stk[s.spos[z]] == z);
    assert(s.ord[s.pos[x] as int] == x); assert(s.ord[s.pos[z] as int] == z);
    if s.spos[z] < s.spos[x] { assert(s.pos[s.stk[s.spos[z]] as int] < s.pos[s.stk[s.spos[x]] as int]); }
    if s.spos[z] > s.spos[x] { assert(s.pos[s.stk[s.spos[x]] as int] < s.pos[s.stk[s.spos[z]] as int]); }
    if s.gray[z] && z != x { assert(s.d[s.dpos[z]] == z); assert(s.pos[s.d[s.dpos[z]] as int] < s.pos[s.d[l - 1] as int]); }
}
// every node of the cut has a low link in the cut and is reached from x
proof fn lem_cut_from(s: St, x: int, z: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] == s.pos[x], s.in_(z), s.onst[z], s.pos[z] >= s.pos[x]
    ensures s.low[z] >= s.pos[x], s.r(x, z)
    decreases s.pos[z]
{
    reveal(St::inv);
    lem_cut(s, x, z);
    if z == x { lem_reach_self(s.fo, s.hd, x); } else {
        assert(s.gray[x]);
        assert(!s.gray[z]);
        assert(z != s.stk[0]) by { lem_bottom(s, x); }
        assert(s.par_ok(z));
        let p = s.par[z];
        assert(s.below(x, z));
        assert(s.pos[x] <= s.pos[p]);
        lem_cut_from(s, x, p);
        assert(!s.pend(z));
        lem_reach_adj(s.fo, s.hd, p, z);
        lem_reach_trans(s.fo, s.hd, x, p, z);
    }
}
// and reaches x
proof fn lem_cut_to(s: St, x: int, z: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] == s.pos[x], s.in_(z), s.onst[z], s.pos[z] >= s.pos[x]
    ensures s.r(z, x)
    decreases s.pos[z]
{
    lem_cut(s, x, z);
    if z == x { lem_reach_self(s.fo, s.hd, x); } else {
        lem_cut_from(s, x, z);
        assert(!s.gray[z]);
        let w = s.ord[s.low[z] as int];
        assert(s.in_(w) && s.pos[w] == s.low[z] && s.onst[w]) by { reveal(St::inv); assert(s.vis(z)); }
        lem_cut_to(s, x, w);
        lem_reach_trans(s.fo, s.hd, z, w, x);
    }
}
proof fn lem_done_closed(s: St, u: int, v: int)
    requires s.inv(), s.in_(u), s.done[u], s.r(u, v)
    ensures s.in_(v), s.done[v]
{
    reveal(St::inv);
    let c = |z: int| s.in_(z) && s.done[z];
    assert forall|z: int, a: int| 0 <= z < s.fo.len() - 1 && c(z) && s.fo[z] <= a < s.fo[z + 1] implies #[trigger] arc(s.fo, s.hd, z, s.hd[a] as int, a) ==> c(s.hd[a] as int) by { lem_hd(s, z, a); assert(s.leads_done(z, a)); }
    lem_reach_closed(s.fo, s.hd, c, u, v);
}
proof fn lem_root_lens(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] == s.pos[x]
    ensures after_root(s, x).lens()
{
    reveal(St::inv);
    let t = after_root(s, x);
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    lem_cut(s, x, x);
    assert(s.cnt < s.n());
}
proof fn lem_root_visits(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] == s.pos[x]
    ensures after_root(s, x).visits()
{
    reveal(St::inv);
    let t = after_root(s, x);
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    lem_cut(s, x, x);
    assert(s.cnt < s.n());
    assert forall|z: int| t.in_(z) implies #[trigger] t.pos[z] != INVAL() ==> t.pos[z] < t.ord.len() && t.ord[t.pos[z] as int] == z by { assert(s.pos[z] == t.pos[z]); }
    assert forall|i: int| 0 <= i < t.ord.len() implies t.in_(#[trigger] t.ord[i]) && t.pos[t.ord[i]] == i by { assert(s.in_(s.ord[i]) && s.pos[s.ord[i]] == i); }
    assert forall|z: int| t.in_(z) implies (#[trigger] t.pos[z] != INVAL()) == (t.onst[z] || t.done[z]) && !(t.onst[z] && t.done[z]) by { assert(s.pos[z] != INVAL() || s.pos[z] == INVAL()); }
}
proof fn lem_root_stack(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] == s.pos[x]
    ensures after_root(s, x).stack()
{
    reveal(St::inv);
    let t = after_root(s, x);
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    lem_cut(s, x, x);
    assert(s.cnt < s.n());
    assert forall|i: int| 0 <= i < t.stk.len() implies #[trigger] t.stk[i] < t.n() && t.onst[t.stk[i] as int] && t.spos[t.stk[i] as int] == i by { assert(s.stk[i] < s.n() && s.onst[s.stk[i] as int] && s.spos[s.stk[i] as int] == i); }
    assert forall|i: int, j: int| 0 <= i < j < t.stk.len() implies t.pos[#[trigger] t.stk[i] as int] < t.pos[#[trigger] t.stk[j] as int] by { assert(s.pos[s.stk[i] as int] < s.pos[s.stk[j] as int]); }
    assert forall|z: int| t.in_(z) && #[trigger] t.onst[z] implies 0 <= t.spos[z] < t.stk.len() && t.stk[t.spos[z]] == z by { assert(s.onst[z]); assert(s.stk[s.spos[z]] == z); }
}
proof fn lem_root_path(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] == s.pos[x]
    ensures after_root(s, x).path()
{
    reveal(St::inv);
    let t = after_root(s, x);
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    lem_cut(s, x, x);
    assert(s.cnt < s.n());
    assert forall|i: int| 0 <= i < l - 1 implies #[trigger] s.d[i] < s.n() && s.d[i] != x && s.gray[s.d[i] as int] && !cut(s, x, s.d[i] as int) && s.onst[s.d[i] as int] by { assert(s.d[i] < s.n()); assert(s.gray[s.d[i] as int]); assert(s.dpos[s.d[i] as int] == i); assert(s.onst[s.d[i] as int]); lem_cut(s, x, s.d[i] as int); }
    assert forall|i: int| 0 <= i < t.d.len() implies #[trigger] t.d[i] < t.n() && (t.gray[t.d[i] as int] || (i == t.d.len() - 1 && !t.vis(t.d[i] as int))) by { assert(s.d[i] < s.n() && s.d[i] != x); }
    assert forall|z: int| t.in_(z) && #[trigger] t.gray[z] implies t.onst[z] && 0 <= t.dpos[z] < t.d.len() && t.d[t.dpos[z]] == z by { assert(s.gray[z]); assert(z != x); assert(s.d[s.dpos[z]] == z); lem_cut(s, x, z); }
    assert forall|i: int, j: int| 0 <= i < j < t.d.len() && t.gray[#[trigger] t.d[j] as int] implies t.pos[#[trigger] t.d[i] as int] < t.pos[t.d[j] as int] by { assert(s.gray[s.d[j] as int]); assert(s.d[i] == t.d[i]); }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.d.len() implies t.steps(#[trigger] t.d[i] as int, #[trigger] t.d[j] as int) by { assert(s.steps(s.d[i] as int, s.d[j] as int)); assert(s.d[j] != x); }
    assert(s.stk[0] == s.d[0]);
    if l == 1 { assert(s.stk[s.spos[x]] == x); assert(s.spos[s.stk[0] as int] == 0); assert(t.stk.len() == 0); }
    else { assert(s.d[0] == t.d[0]); assert(s.gray[s.d[0] as int]); assert(s.onst[s.d[0] as int]); assert(s.vis(s.d[0] as int)); }
}
proof fn lem_root_arcs(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] == s.pos[x]
    ensures after_root(s, x).arcs()
{
    reveal(St::inv);
    let t = after_root(s, x);
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    lem_cut(s, x, x);
    assert(s.cnt < s.n());
    assert forall|z: int| t.in_(z) implies t.fo[z] <= #[trigger] t.nxt[z] <= t.fo[z + 1] && (!t.vis(z) ==> t.nxt[z] == t.fo[z]) by { assert(s.nxt[z] >= s.fo[z]); }
    assert forall|z: int, a: int| t.in_(z) && t.onst[z] && t.fo[z] <= a < t.nxt[z] implies #[trigger] t.passed(z, a) by { assert(s.passed(z, a)); lem_hd(s, z, a); }
    assert forall|z: int| t.in_(z) && t.onst[z] && !t.gray[z] implies #[trigger] t.nxt[z] == t.fo[z + 1] by { assert(z != x); assert(!s.gray[z]); }
    assert forall|z: int, a: int| t.in_(z) && t.done[z] && t.fo[z] <= a < t.fo[z + 1] implies #[trigger] t.leads_done(z, a) by {
        lem_hd(s, z, a);
        if s.done[z] { assert(s.leads_done(z, a)); } else {
            lem_cut(s, x, z); lem_cut_from(s, x, z);
            assert(s.nxt[z] == s.fo[z + 1]);
            assert(s.passed(z, a));
            let y = s.hd[a] as int;
            assert(s.pos[y] != INVAL());
            if s.onst[y] { lem_cut(s, x, y); }
        }
    }
}
proof fn lem_root_lows(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] == s.pos[x]
    ensures after_root(s, x).lows()
{
    reveal(St::inv);
    let t = after_root(s, x);
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    lem_cut(s, x, x);
    assert(s.cnt < s.n());
    assert forall|z: int| t.in_(z) && t.onst[z] implies #[trigger] t.low_ok(z) by { assert(s.onst[z]); lem_cut(s, x, z); let w = s.ord[s.low[z] as int]; assert(s.in_(w) && s.pos[w] == s.low[z]); lem_cut(s, x, w); }
}
proof fn lem_root_tree(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] == s.pos[x]
    ensures after_root(s, x).tree()
{
    reveal(St::inv);
    let t = after_root(s, x);
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    lem_cut(s, x, x);
    assert(s.cnt < s.n());
    assert forall|z: int| t.in_(z) && t.onst[z] && z != t.stk[0] implies #[trigger] t.par_ok(z) by { assert(s.onst[z]); lem_cut(s, x, z); assert(s.stk[s.spos[z]] == z); assert(t.stk[0] == s.stk[0]); assert(s.par_ok(z)); assert(s.onst[s.par[z]]); lem_cut(s, x, s.par[z]); assert(!s.pend(z)); }
    assert forall|z: int, g: int| t.in_(z) && t.in_(g) && t.onst[z] && t.gray[g] && t.pos[g] < t.pos[z] implies #[trigger] t.below(g, z) by { assert(s.below(g, z)); }
}
proof fn lem_root_comps(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] == s.pos[x]
    ensures after_root(s, x).comps()
{
    reveal(St::inv);
    let t = after_root(s, x);
    let l = s.d.len() as int;
    assert(s.gray[x]); assert(s.onst[x]); assert(s.vis(x)); assert(s.dpos[s.d[l - 1] as int] == l - 1);
    lem_cut(s, x, x);
    assert(s.cnt < s.n());
    assert forall|z: int| t.in_(z) && t.done[z] implies #[trigger] t.comp[z] < t.cnt by { assert(s.done[z] ==> s.comp[z] < s.cnt); }
    assert forall|u: int, v: int| t.in_(u) && t.in_(v) && t.done[u] && t.done[v] implies (#[trigger] t.comp[u] == #[trigger] t.comp[v]) == mutual(t.fo, t.hd, u, v) by {
        assert((s.done[u] ==> s.comp[u] < s.cnt) && (s.done[v] ==> s.comp[v] < s.cnt));
        assert(s.pos[u] != INVAL() || s.pos[u] == INVAL()); assert(s.pos[v] != INVAL() || s.pos[v] == INVAL());
        if s.done[u] && s.done[v] { assert((s.comp[u] == s.comp[v]) == mutual(s.fo, s.hd, u, v)); }
        else if s.done[u] { if s.r(u, v) { lem_done_closed(s, u, v); } }
        else if s.done[v] { if s.r(v, u) { lem_done_closed(s, v, u); } }
        else {
            lem_cut(s, x, u); lem_cut(s, x, v); lem_cut_from(s, x, u); lem_cut_from(s, x, v); lem_cut_to(s, x, u); lem_cut_to(s, x, v);
            lem_reach_trans(s.fo, s.hd, u, x, v); lem_reach_trans(s.fo, s.hd, v, x, u);
        }
    }
}
pub proof fn lem_root(s: St, x: int)
    requires s.inv(), at_last(s, x), s.nxt[x] == s.fo[x + 1], s.low[x] == s.pos[x]
    ensures after_root(s, x).inv(), after_root(s, x).cnt <= s.n()
{
    let t = after_root(s, x);
    assert(s.cnt < s.n()) by { reveal(St::inv); assert(s.gray[x]); assert(s.onst[x]); }
    lem_root_lens(s, x);
    lem_root_visits(s, x);
    lem_root_stack(s, x);
    lem_root_path(s, x);
    lem_root_arcs(s, x);
    lem_root_lows(s, x);
    lem_root_tree(s, x);
    lem_root_comps(s, x);
    reveal(St::inv);
}
// ---- an empty path: the stack is empty, too
pub proof fn lem_empty(s: St)
    requires s.inv(), s.d.len() == 0
    ensures s.stk.len() == 0, forall|z: int| #![trigger s.onst[z]] #![trigger s.done[z]] #![trigger s.pos[z]] s.in_(z) ==> !s.onst[z] && s.vis(z) == s.done[z] && !s.gray[z]
{
    reveal(St::inv);
    assert forall|z: int| s.in_(z) implies !(#[trigger] s.onst[z]) && s.vis(z) == s.done[z] && !s.gray[z] by { assert(s.pos[z] != INVAL() || s.pos[z] == INVAL()); if s.onst[z] { assert(s.stk[s.spos[z]] == z); } if s.gray[z] { assert(s.onst[z]); } }
}
pub open spec fn after_start(s: St, x: int) -> St { St { d: seq![x as u32], ..s } }
proof fn lem_start_lens(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() == 0, !s.done[x]
    ensures after_start(s, x).lens()
{
    reveal(St::inv);
    let t = after_start(s, x);
    lem_empty(s);
    assert(s.onst[x] == s.onst[x]); assert(!s.vis(x));
}
proof fn lem_start_visits(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() == 0, !s.done[x]
    ensures after_start(s, x).visits()
{
    reveal(St::inv);
    let t = after_start(s, x);
    lem_empty(s);
    assert(s.onst[x] == s.onst[x]); assert(!s.vis(x));
    assert forall|z: int| t.in_(z) implies #[trigger] t.pos[z] != INVAL() ==> t.pos[z] < t.ord.len() && t.ord[t.pos[z] as int] == z by { assert(s.pos[z] == t.pos[z]); }
    assert forall|i: int| 0 <= i < t.ord.len() implies t.in_(#[trigger] t.ord[i]) && t.pos[t.ord[i]] == i by { assert(s.in_(s.ord[i]) && s.pos[s.ord[i]] == i); }
    assert forall|z: int| t.in_(z) implies (#[trigger] t.pos[z] != INVAL()) == (t.onst[z] || t.done[z]) && !(t.onst[z] && t.done[z]) by { assert(s.pos[z] != INVAL() || s.pos[z] == INVAL()); }
}
proof fn lem_start_stack(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() == 0, !s.done[x]
    ensures after_start(s, x).stack()
{
    reveal(St::inv);
    let t = after_start(s, x);
    lem_empty(s);
    assert(s.onst[x] == s.onst[x]); assert(!s.vis(x));
}
proof fn lem_start_path(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() == 0, !s.done[x]
    ensures after_start(s, x).path()
{
    reveal(St::inv);
    let t = after_start(s, x);
    lem_empty(s);
    assert(s.onst[x] == s.onst[x]); assert(!s.vis(x));
}
proof fn lem_start_arcs(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() == 0, !s.done[x]
    ensures after_start(s, x).arcs()
{
    reveal(St::inv);
    let t = after_start(s, x);
    lem_empty(s);
    assert(s.onst[x] == s.onst[x]); assert(!s.vis(x));
    assert forall|z: int| t.in_(z) implies t.fo[z] <= #[trigger] t.nxt[z] <= t.fo[z + 1] && (!t.vis(z) ==> t.nxt[z] == t.fo[z]) by { assert(s.nxt[z] >= s.fo[z]); }
    assert forall|z: int, a: int| t.in_(z) && t.done[z] && t.fo[z] <= a < t.fo[z + 1] implies #[trigger] t.leads_done(z, a) by { assert(s.leads_done(z, a)); }
}
proof fn lem_start_lows(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() == 0, !s.done[x]
    ensures after_start(s, x).lows()
{
    reveal(St::inv);
    let t = after_start(s, x);
    lem_empty(s);
    assert(s.onst[x] == s.onst[x]); assert(!s.vis(x));
}
proof fn lem_start_tree(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() == 0, !s.done[x]
    ensures after_start(s, x).tree()
{
    reveal(St::inv);
    let t = after_start(s, x);
    lem_empty(s);
    assert(s.onst[x] == s.onst[x]); assert(!s.vis(x));
}
proof fn lem_start_comps(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() == 0, !s.done[x]
    ensures after_start(s, x).comps()
{
    reveal(St::inv);
    let t = after_start(s, x);
    lem_empty(s);
    assert(s.onst[x] == s.onst[x]); assert(!s.vis(x));
    assert forall|z: int| t.in_(z) && t.done[z] implies #[trigger] t.comp[z] < t.cnt by { assert(s.comp[z] < s.cnt); }
    assert forall|u: int, v: int| t.in_(u) && t.in_(v) && t.done[u] && t.done[v] implies (#[trigger] t.comp[u] == #[trigger] t.comp[v]) == mutual(t.fo, t.hd, u, v) by { assert((s.comp[u] == s.comp[v]) == mutual(s.fo, s.hd, u, v)); }
}
pub proof fn lem_start(s: St, x: int)
    requires s.inv(), s.in_(x), s.d.len() == 0, !s.done[x]
    ensures after_start(s, x).inv()
{
    let t = after_start(s, x);
    lem_start_lens(s, x);
    lem_start_visits(s, x);
    lem_start_stack(s, x);
    lem_start_path(s, x);
    lem_start_arcs(s, x);
    lem_start_lows(s, x);
    lem_start_tree(s, x);
    lem_start_comps(s, x);
    reveal(St::inv);
}
// ---- what the loop body needs of the last node of the path
pub proof fn lem_last(s: St, x: int)
    requires s.inv(), s.d.len() > 0, s.d[s.d.len() - 1] == x
    ensures s.in_(x), s.vis(x) ==> at_last(s, x), s.lens(), s.d.len() <= s.n(), s.stk.len() <= s.n(), s.ord.len() <= s.n(), !s.vis(x) ==> s.ord.len() < s.n() && s.stk.len() < s.n(), s.fo[x] <= s.nxt[x] <= s.fo[x + 1]
{
    reveal(St::inv);
    let t = s.d.map_values(|v: u32| v as int);
    assert(s.d[s.d.len() - 1] < s.n());
    assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < s.n() by { assert(s.d[i] < s.n()); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] != #[trigger] t[j] by {
        assert(s.d[i] < s.n()); assert(s.d[j] < s.n()); assert(s.gray[s.d[i] as int]); assert(s.dpos[s.d[i] as int] == i); assert(s.vis(s.d[i] as int)) by { assert(s.onst[s.d[i] as int]); }
    }
    lem_distinct(t, s.n());
    if !s.vis(x) { lem_room(s, x); }
    assert(s.nxt[x] >= s.fo[x]);
}
pub proof fn lem_cnt(s: St, x: int) requires s.inv(), at_last(s, x) ensures s.cnt < s.n(), s.onst[x], 0 <= s.spos[x] < s.stk.len(), s.stk[s.spos[x]] == x { reveal(St::inv); assert(s.gray[x]); assert(s.onst[x]); }

pub proof fn lem_stack(s: St) requires s.inv() ensures s.stack() { reveal(St::inv); }
pub proof fn lem_comps(s: St) requires s.inv() ensures s.comps(), s.cnt <= s.n() { reveal(St::inv); }
pub open spec fn start(fo: Seq<u32>, hd: Seq<u32>) -> St {
    let n = (fo.len() - 1) as nat;
    St { fo, hd, pos: Seq::new(n, |i: int| INVAL()), low: Seq::new(n, |i: int| 0u32), nxt: fo, comp: Seq::new(n, |i: int| 0u32), onst: Seq::new(n, |i: int| false), done: Seq::new(n, |i: int| false), stk: Seq::empty(), d: Seq::empty(), cnt: 0,
        par: Seq::new(n, |i: int| 0int), spos: Seq::new(n, |i: int| 0int), dpos: Seq::new(n, |i: int| 0int), gray: Seq::new(n, |i: int| false), ord: Seq::empty() }
}
pub proof fn lem_begin(fo: Seq<u32>, hd: Seq<u32>)
    requires graph_ok(fo, hd)
    ensures start(fo, hd).inv()
{
    reveal(St::inv);
    let t = start(fo, hd);
    assert forall|z: int| t.in_(z) implies t.fo[z] <= #[trigger] t.nxt[z] <= t.fo[z + 1] && (!t.vis(z) ==> t.nxt[z] == t.fo[z]) by { assert(fo[z] <= fo[z + 1]); }
}
// the variables of the program hold the state
pub open spec fn holds(s: St, fo: Seq<u32>, hd: Seq<u32>, pos: Seq<u32>, low: Seq<u32>, nxt: Seq<u32>, next: u32) -> bool { s.fo == fo && s.hd == hd && s.pos == pos && s.low == low && s.nxt == nxt && s.ord.len() == next }
pub open spec fn holds_stack(s: St, onst: Seq<bool>, done: Seq<bool>, stack: Seq<u32>, top: u32, res: StronlyConnectedComponentsResult) -> bool {
    s.onst == onst && s.done == done && stack.len() == s.n() && top <= stack.len() && s.stk == stack.take(top as int) && s.comp == res.component_of@ && s.cnt == res.component_count
}
// ---- component sizes
pub open spec fn class_size(fo: Seq<u32>, hd: Seq<u32>, y: int, k: int) -> int decreases k { if k <= 0 { 0int } else { class_size(fo, hd, y, k - 1) + if mutual(fo, hd, y, k - 1) { 1int } else { 0int } } }
pub open spec fn count_eq(c: Seq<u32>, v: int, k: int) -> int decreases k { if k <= 0 { 0int } else { count_eq(c, v, k - 1) + if c[k - 1] == v { 1int } else { 0int } } }
pub open spec fn comp_ok(fo: Seq<u32>, hd: Seq<u32>, c: Seq<u32>) -> bool { c.len() == fo.len() - 1 && forall|u: int, v: int| 0 <= u < c.len() && 0 <= v < c.len() ==> (#[trigger] c[u] == #[trigger] c[v]) == mutual(fo, hd, u, v) }
pub proof fn lem_size(fo: Seq<u32>, hd: Seq<u32>, c: Seq<u32>, y: int, k: int)
    requires comp_ok(fo, hd, c), 0 <= y < c.len(), 0 <= k <= c.len()
    ensures class_size(fo, hd, y, k) == count_eq(c, c[y] as int, k)
    decreases k
{ if k > 0 { lem_size(fo, hd, c, y, k - 1); assert((c[y] == c[k - 1]) == mutual(fo, hd, y, k - 1)); } }
pub proof fn lem_count_member(c: Seq<u32>, v: int, k: int)
    requires 0 <= k <= c.len()
    ensures 0 <= count_eq(c, v, k) <= k, count_eq(c, v, k) > 0 ==> exists|x: int| 0 <= x < k && #[trigger] c[x] == v
    decreases k
{ if k > 0 { lem_count_member(c, v, k - 1); if c[k - 1] == v {} else if count_eq(c, v, k) > 0 { let x = choose|x: int| 0 <= x < k - 1 && #[trigger] c[x] == v; assert(c[x] == v); } } }
pub proof fn lem_count_pos(c: Seq<u32>, x: int, k: int)
    requires 0 <= x < k <= c.len()
    ensures count_eq(c, c[x] as int, k) > 0
    decreases k
{ lem_count_member(c, c[x] as int, k - 1); if x < k - 1 { lem_count_pos(c, x, k - 1); } }
// q marks the class of x0, and no class has more nodes
pub open spec fn largest(fo: Seq<u32>, hd: Seq<u32>, q: Seq<bool>, x0: int) -> bool {
    &&& forall|x: int| 0 <= x < q.len() ==> #[trigger] q[x] == mutual(fo, hd, x0, x)
    &&& forall|y: int| 0 <= y < q.len() ==> #[trigger] class_size(fo, hd, y, q.len() as int) <= class_size(fo, hd, x0, q.len() as int)
}
