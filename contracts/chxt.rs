// ---- extra weights of pinned queries
// the search runs along the arcs (d) or against them (!d)
pub open spec fn dcat(d: bool, p: Seq<Seg>, q: Seq<Seg>) -> Seq<Seg> { if d { p + q } else { q + p } }
pub open spec fn dlnk(d: bool, a: u32, b: u32) -> u32 { if d { lnk(a, b) } else { lnk(b, a) } }
pub open spec fn dreal(d: bool, g: In, p: Seq<Seg>, u: int, v: int, l: int) -> bool { if d { real(g, p, u, v, l) } else { real(g, p, v, u, l) } }
// s: the search before the sweep, t: after it
pub struct Tr { pub d: bool, pub c: ContractionHierarchy, pub g: In, pub w: Seq<u32>, pub s: S, pub t: S, pub src: Map<int, int>, pub sel: Seq<u32>, pub cnt: int }
impl Tr {
    pub open spec fn n(&self) -> int { self.c.n() }
    pub open spec fn h(&self) -> H { if self.d { self.c.h() } else { rev(self.c.h()) } }
    #[verifier::opaque]
    pub open spec fn ok(&self) -> bool {
        assoc() && self.c.stand(self.g) && hwf(self.c.h(), self.n()) && self.w.len() == self.g.tail.len() && after_sweep(&self.s, self.h(), self.n(), self.src, self.t, self.sel, self.cnt)
    }
    // what an arc of the search and an arc of the sweep stand for
    pub open spec fn ux(&self, v: int, a: int) -> Seq<Seg> { if self.d { self.c.unp(&self.c.forward, v, a) } else { self.c.unp(&self.c.backward, v, a) } }
    pub open spec fn dx(&self, v: int, a: int) -> Seq<Seg> { if self.d { self.c.unp(&self.c.backward, v, a) } else { self.c.unp(&self.c.forward, v, a) } }
    pub open spec fn xu(&self, v: int, a: int) -> u32 { xw(self.w, self.ux(v, a)) }
    pub open spec fn xd(&self, v: int, a: int) -> u32 { xw(self.w, self.dx(v, a)) }
    // the way from the source to x found by the search
    pub open spec fn asc(&self, x: int) -> Seq<Seg>
        decreases x
    { if self.s.pn[x] == INV() || !(0 <= self.s.pn[x] < x) { Seq::empty() } else { dcat(self.d, self.asc(self.s.pn[x] as int), self.ux(self.s.pn[x] as int, self.s.pa[x] as int)) } }
    pub open spec fn flag(&self, x: int) -> bool { self.t.w.flag(x) }
    pub open spec fn hd(&self, x: int) -> int { self.h().b.head[self.t.pa[x] as int] as int }
    // the way from the source to x
    #[verifier::opaque]
    pub open spec fn tp(&self, x: int) -> Seq<Seg>
        decreases self.n() - x
    { if self.flag(x) { self.asc(x) } else if !(x < self.hd(x) < self.n()) { Seq::empty() } else { dcat(self.d, self.tp(self.hd(x)), self.dx(x, self.t.pa[x] as int)) } }
    pub open spec fn root(&self, x: int) -> bool { 0 <= x < self.n() && self.flag(x) && self.s.pu(x) && self.s.pn[x] == INV() }
    pub open spec fn par(&self, x: int) -> int { if self.flag(x) { self.s.pn[x] as int } else { self.hd(x) } }
    // x kn a predecessor
    pub open spec fn mid(&self, x: int) -> bool {
        &&& 0 <= x < self.n() && 0 <= self.par(x) < self.n()
        &&& if self.flag(x) { self.s.pu(x) && self.t.pa[x] == self.s.pa[x] && self.s.pn[x] != INV() && self.par(x) < x && self.flag(self.par(x)) && self.h().f.arc(self.par(x), self.t.pa[x] as int) }
            else { self.par(x) > x && self.h().b.arc(x, self.t.pa[x] as int) }
    }
    pub open spec fn mu(&self, x: int) -> int { if self.flag(x) { x } else { 2 * self.n() - x } }
    // x is on a way from the source to z
    pub open spec fn upon(&self, x: int, p: Seq<St>, z: int) -> bool {
        &&& 0 <= x < self.n() && insel(self.sel, self.cnt, z) && walk(self.h(), p, x, z) && self.t.td[z] < INF()
        &&& if self.flag(x) { self.s.pu(x) && self.s.td[x] + wl(p) == self.t.td[z] } else { insel(self.sel, self.cnt, x) && self.t.td[x] < INF() && self.t.td[x] + wl(p) == self.t.td[z] }
    }
    pub proof fn lemma_facts(&self)
        requires self.ok(),
        ensures self.t.sized(self.n()), self.s.sized(self.n()), self.t.pn == self.s.pn, self.n() < 0x4000_0000, self.h().b.head.len() <= 0xFFFF_FFFF, forall|v: int, a: int| #[trigger] self.h().b.arc(v, a) ==> a < self.h().b.head.len()
    {
        reveal(Tr::ok);
        lemma_parts(&self.s, self.h(), self.n(), self.src, false, -1);
        assert forall|v: int, a: int| #[trigger] self.h().b.arc(v, a) implies a < self.h().b.head.len() by { assert(self.h().b.fo[v + 1] <= self.h().b.fo[self.n()]); }
    }
    pub proof fn lemma_start(&self, z: int)
        requires self.ok(), insel(self.sel, self.cnt, z),
        ensures 0 <= z < self.n(), (!self.flag(z) && self.t.pa[z] == INV()) <==> self.t.td[z] == INF(), self.t.td[z] <= INF(), self.t.td[z] < INF() ==> self.upon(z, Seq::empty(), z)
    {
        reveal(Tr::ok);
        lemma_parts(&self.s, self.h(), self.n(), self.src, false, -1);
        let i = choose|i: int| 0 <= i < self.cnt && #[trigger] self.sel[i] == z;
        assert(traced(&self.s, self.h(), self.t.td, &self.t.w, self.t.pa, self.sel[i] as int));
        assert(swept(&self.s, self.h(), self.src, self.t.td, self.sel[i] as int));
        assert(self.s.small()) by { reveal(S::inv_but); }
        if self.flag(z) { assert(self.s.pu(z)); }
        else if self.t.td[z] < INF() { assert(self.h().b.fo[z + 1] <= self.h().b.fo[self.n()]); assert(self.t.pa[z] < self.h().b.head.len()); }
        assert(wl(Seq::<St>::empty()) == 0);
    }
    // one step back to the source
    pub proof fn lemma_back(&self, x: int, p: Seq<St>, z: int) -> (r: Seq<St>)
        requires self.ok(), self.upon(x, p, z),
        ensures !self.root(x) ==> self.mid(x) && self.mu(self.par(x)) < self.mu(x) && self.upon(self.par(x), r, z), self.flag(x) && self.s.pn[x] == INV() ==> self.root(x)
    {
        reveal(Tr::ok);
        lemma_parts(&self.s, self.h(), self.n(), self.src, false, -1);
        if self.root(x) { p }
        else if self.flag(x) {
            assert(self.s.wit(self.h().f, self.src, x)) by { reveal(S::inv_but); }
            let r = lemma_trace_up(&self.s, self.h(), self.n(), self.src, x, p, z);
            lemma_still(&self.s, self.h(), self.n(), self.src, self.t, self.sel, self.cnt, self.par(x), r, z);
            if insel(self.sel, self.cnt, x) {
                let i = choose|i: int| 0 <= i < self.cnt && #[trigger] self.sel[i] == x;
                assert(traced(&self.s, self.h(), self.t.td, &self.t.w, self.t.pa, self.sel[i] as int));
            }
            r
        } else {
            let r = lemma_trace_down(&self.s, self.h(), self.n(), self.src, self.t, self.sel, self.cnt, x, p, z);
            let y = self.hd(x);
            let i = choose|i: int| 0 <= i < self.cnt && #[trigger] self.sel[i] == y;
            assert(traced(&self.s, self.h(), self.t.td, &self.t.w, self.t.pa, self.sel[i] as int));
            r
        }
    }
    pub proof fn lemma_tp(&self, x: int)
        requires self.ok(), self.mid(x),
        ensures self.flag(x) ==> self.tp(x) == dcat(self.d, self.tp(self.par(x)), self.ux(self.par(x), self.t.pa[x] as int)) && self.ux(self.par(x), self.t.pa[x] as int).len() > 0,
            !self.flag(x) ==> self.tp(x) == dcat(self.d, self.tp(self.par(x)), self.dx(x, self.t.pa[x] as int)) && self.dx(x, self.t.pa[x] as int).len() > 0,
    {
        reveal_with_fuel(Tr::tp, 2); reveal(Tr::ok);
        if self.flag(x) { if self.d { self.c.unp_some_fwd(self.g, self.par(x), self.t.pa[x] as int); } else { self.c.unp_some_bwd(self.g, self.par(x), self.t.pa[x] as int); } }
        else { if self.d { self.c.unp_some_bwd(self.g, x, self.t.pa[x] as int); } else { self.c.unp_some_fwd(self.g, x, self.t.pa[x] as int); } }
    }
    pub proof fn lemma_root(&self, x: int)
        requires self.root(x),
        ensures self.tp(x).len() == 0, xw(self.w, self.tp(x)) == 0
    { reveal_with_fuel(Tr::tp, 2); }
    // the extra weight at x from that at its predecessor
    pub proof fn lemma_val(&self, x: int)
        requires self.ok(), self.mid(x),
        ensures self.tp(x).len() > 0,
            ({ let e = if self.flag(x) { self.xu(self.par(x), self.t.pa[x] as int) } else { self.xd(x, self.t.pa[x] as int) };
                xw(self.w, self.tp(x)) == if self.tp(self.par(x)).len() > 0 { dlnk(self.d, xw(self.w, self.tp(self.par(x))), e) } else { e } })
    {
        self.lemma_tp(x); reveal(Tr::ok);
        let p = self.tp(self.par(x)); let q = if self.flag(x) { self.ux(self.par(x), self.t.pa[x] as int) } else { self.dx(x, self.t.pa[x] as int) };
        if p.len() > 0 { if self.d { xw_cat(self.w, p, q); } else { xw_cat(self.w, q, p); } }
        else { if self.d { xw_none(self.w, p, q); } else { xw_none(self.w, q, p); } }
    }
    // the extra weights known so far
    #[verifier::opaque]
    pub open spec fn vals(&self, kn: TimestampFlags, tmp: Seq<u32>) -> bool {
        &&& kn.wf() && kn.last_seen@.len() == self.n() && tmp.len() >= self.n()
        &&& forall|x: int| 0 <= x < self.n() && #[trigger] kn.flag(x) ==> tmp[x] == xw(self.w, self.tp(x)) && self.tp(x).len() > 0
    }
    // stk[0 .. k) is the way from z back to x, the last f of them by the search
    #[verifier::opaque]
    pub open spec fn chn(&self, kn: TimestampFlags, stk: Seq<u32>, k: int, f: int, x: int, z: int) -> bool {
        &&& 0 <= f <= k <= stk.len() && 0 <= x < self.n() && kn.last_seen@.len() == self.n()
        &&& if k == 0 { x == z } else { stk[0] == z && self.par(stk[k - 1] as int) == x }
        &&& forall|i: int| 0 <= i < k ==> self.mid(#[trigger] stk[i] as int) && !kn.flag(stk[i] as int) && (self.flag(stk[i] as int) <==> i >= k - f) && self.mu(stk[i] as int) > self.mu(x)
        &&& forall|i: int| 0 <= i < k - 1 ==> self.par(#[trigger] stk[i] as int) == stk[i + 1]
        &&& forall|i: int, j: int| 0 <= i < j < k ==> self.mu(#[trigger] stk[i] as int) > self.mu(#[trigger] stk[j] as int)
    }
    pub proof fn lemma_chn_none(&self, kn: TimestampFlags, stk: Seq<u32>, z: int)
        requires 0 <= z < self.n(), kn.last_seen@.len() == self.n(),
        ensures self.chn(kn, stk, 0, 0, z, z)
    { reveal(Tr::chn); }
    // there is room for one more
    pub proof fn lemma_room(&self, kn: TimestampFlags, stk: Seq<u32>, k: int, f: int, x: int, z: int)
        requires self.chn(kn, stk, k, f, x, z), stk.len() == self.n(), 0 <= x,
        ensures k < self.n()
    {
        reveal(Tr::chn);
        let a = stk.subrange(0, k).push(x as u32);
        if k >= self.n() {
            let m = Seq::new((k + 1) as nat, |i: int| if i < k { stk[i] as int } else { x });
            assert(m.no_duplicates()) by {
                assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j implies m[i] != m[j] by {
                    let (i, j) = if i < j { (i, j) } else { (j, i) };
                    assert(self.mu(m[i]) > self.mu(m[j])) by { assert(m[i] == stk[i]); if j < k { assert(self.mu(stk[i] as int) > self.mu(stk[j] as int)); } }
                }
            }
            m.unique_seq_to_set();
            let r = vstd::set_lib::set_int_range(0, self.n());
            assert(m.to_set().subset_of(r)) by {
                assert forall|e: int| #[trigger] m.to_set().contains(e) implies r.contains(e) by { let i = choose|i: int| 0 <= i < m.len() && m[i] == e; if i < k { assert(self.mid(stk[i] as int)); } }
            }
            vstd::set_lib::lemma_int_range(0, self.n());
            vstd::set_lib::lemma_len_subset(m.to_set(), r);
            assert(false);
        }
    }
    pub proof fn lemma_chn_push(&self, kn: TimestampFlags, stk: Seq<u32>, k: int, f: int, x: u32, z: int, st2: Seq<u32>)
        requires self.chn(kn, stk, k, f, x as int, z), self.mid(x as int), self.mu(self.par(x as int)) < self.mu(x as int), !kn.flag(x as int), k < stk.len(), f > 0 ==> self.flag(x as int), st2 == stk.update(k, x),
        ensures self.chn(kn, st2, k + 1, if self.flag(x as int) { f + 1 } else { f }, self.par(x as int), z)
    {
        reveal(Tr::chn);
        assert forall|i: int| 0 <= i < k + 1 implies self.mid(#[trigger] st2[i] as int) && !kn.flag(st2[i] as int) && self.mu(st2[i] as int) > self.mu(self.par(x as int)) by { if i < k { assert(st2[i] == stk[i]); } }
        let f2 = if self.flag(x as int) { f + 1 } else { f };
        assert forall|i: int| 0 <= i < k + 1 implies (self.flag(#[trigger] st2[i] as int) <==> i >= k + 1 - f2) by { if i < k { assert(st2[i] == stk[i]); } }
        assert forall|i: int| 0 <= i < k implies self.par(#[trigger] st2[i] as int) == st2[i + 1] by { assert(st2[i] == stk[i]); if i < k - 1 { assert(st2[i + 1] == stk[i + 1]); } }
        assert forall|i: int, j: int| 0 <= i < j < k + 1 implies self.mu(#[trigger] st2[i] as int) > self.mu(#[trigger] st2[j] as int) by { assert(st2[i] == stk[i]); if j < k { assert(st2[j] == stk[j]); } }
    }
    pub proof fn lemma_chn_top(&self, kn: TimestampFlags, stk: Seq<u32>, k: int, f: int, x: int, z: int)
        requires self.chn(kn, stk, k, f, x, z),
        ensures 0 <= f <= k <= stk.len(), 0 <= x < self.n(), k == 0 ==> x == z,
            k > 0 ==> self.mid(stk[k - 1] as int) && self.par(stk[k - 1] as int) == x && !kn.flag(stk[k - 1] as int) && (self.flag(stk[k - 1] as int) <==> f > 0)
    { reveal(Tr::chn); }
    // the extra weight of y, the top of the stack, kn been computed
    pub proof fn lemma_pop(&self, kn: TimestampFlags, tmp: Seq<u32>, stk: Seq<u32>, k: int, f: int, x: int, z: int, y: int, h2: TimestampFlags, t2: Seq<u32>)
        requires self.ok(), self.chn(kn, stk, k, f, x, z), self.vals(kn, tmp), k > 0, y == stk[k - 1], h2.wf(), h2.last_seen@.len() == self.n(),
            forall|i: int| 0 <= i < self.n() ==> #[trigger] h2.flag(i) == (i == y || kn.flag(i)),
            t2.len() == tmp.len(), forall|i: int| 0 <= i < tmp.len() && i != y ==> t2[i] == tmp[i], t2[y] == xw(self.w, self.tp(y)),
        ensures self.chn(h2, stk, k - 1, if f > 0 { f - 1 } else { 0 }, y, z), self.vals(h2, t2), h2.flag(y)
    {
        reveal(Tr::chn); reveal(Tr::vals);
        assert(self.mid(stk[k - 1] as int));
        self.lemma_val(y);
        assert forall|i: int| 0 <= i < k - 1 implies !h2.flag(stk[i] as int) && self.mu(#[trigger] stk[i] as int) > self.mu(y) by { assert(self.mu(stk[i] as int) > self.mu(stk[k - 1] as int)); assert(self.mid(stk[i] as int)); assert(h2.flag(stk[i] as int) == (stk[i] == y || kn.flag(stk[i] as int))); }
    }
    pub proof fn lemma_vals(&self, kn: TimestampFlags, tmp: Seq<u32>, x: int)
        requires self.vals(kn, tmp), 0 <= x < self.n(),
        ensures kn.wf(), kn.last_seen@.len() == self.n(), tmp.len() >= self.n(), kn.flag(x) ==> tmp[x] == xw(self.w, self.tp(x)) && self.tp(x).len() > 0
    { reveal(Tr::vals); }
    pub proof fn lemma_vals_wf(&self, kn: TimestampFlags, tmp: Seq<u32>)
        requires self.vals(kn, tmp),
        ensures kn.wf(), kn.last_seen@.len() == self.n()
    { reveal(Tr::vals); }
    pub proof fn lemma_vals_root(&self, kn: TimestampFlags, tmp: Seq<u32>, x: int, t2: Seq<u32>)
        requires self.vals(kn, tmp), self.root(x), t2 == tmp.update(x, 0u32), !kn.flag(x),
        ensures self.vals(kn, t2), t2[x] == xw(self.w, self.tp(x))
    { reveal(Tr::vals); self.lemma_root(x); }
    pub proof fn lemma_vals_none(&self, kn: TimestampFlags, tmp: Seq<u32>)
        requires kn.wf(), kn.last_seen@.len() == self.n(), tmp.len() >= self.n(), forall|x: int| 0 <= x < self.n() ==> !#[trigger] kn.flag(x),
        ensures self.vals(kn, tmp)
    { reveal(Tr::vals); }
    // ---- the way is a real one
    pub open spec fn src_of(&self, x: int) -> int
        decreases x
    { if self.s.pn[x] == INV() || !(0 <= self.s.pn[x] < x) { x } else { self.src_of(self.s.pn[x] as int) } }
    pub proof fn lemma_arc(&self, v: int, a: int)
        requires self.ok(),
        ensures self.h().f.arc(v, a) ==> dreal(self.d, self.g, self.ux(v, a), self.c.order@[v] as int, self.c.order@[self.h().f.head[a] as int] as int, self.h().f.wt[a] as int),
            self.h().b.arc(v, a) ==> dreal(self.d, self.g, self.dx(v, a), self.c.order@[self.h().b.head[a] as int] as int, self.c.order@[v] as int, self.h().b.wt[a] as int)
    {
        reveal(Tr::ok);
        if self.c.h().f.arc(v, a) { self.c.lemma_unp_fwd(self.g, v, a); }
        if self.c.h().b.arc(v, a) { self.c.lemma_unp_bwd(self.g, v, a); }
    }
    pub proof fn dreal_cat(&self, p: Seq<Seg>, q: Seq<Seg>, u: int, x: int, v: int, k: int, l: int)
        requires dreal(self.d, self.g, p, u, x, k), dreal(self.d, self.g, q, x, v, l),
        ensures dreal(self.d, self.g, dcat(self.d, p, q), u, v, k + l)
    { if self.d { real_cat(self.g, p, q, u, x, v, k, l); } else { real_cat(self.g, q, p, v, x, u, l, k); } }
    pub proof fn lemma_asc_real(&self, x: int) -> (l: int)
        requires self.ok(), self.s.pu(x),
        ensures dreal(self.d, self.g, self.asc(x), self.c.order@[self.src_of(x)] as int, self.c.order@[x] as int, l), self.src.contains_key(self.src_of(x)), self.src[self.src_of(x)] + l == self.s.td[x], 0 <= self.src_of(x) < self.n()
        decreases x
    {
        reveal(Tr::ok);
        let s = self.s; let h = self.h();
        assert(s.wit(h.f, self.src, x)) by { reveal(S::inv_but); }
        lemma_parts(&s, h, self.n(), self.src, false, -1);
        if s.pn[x] == INV() { real_none(self.g, self.c.order@[x] as int); 0 }
        else {
            let u = s.pn[x] as int; let a = s.pa[x] as int;
            assert(s.po(u));
            let k = self.lemma_asc_real(u);
            self.lemma_arc(u, a);
            self.dreal_cat(self.asc(u), self.ux(u, a), self.c.order@[self.src_of(x)] as int, self.c.order@[u] as int, self.c.order@[x] as int, k, h.f.wt[a] as int);
            k + h.f.wt[a]
        }
    }
    // p is a way between x and the end e of the search that explains the distance of x
    pub open spec fn explains(&self, x: int, e: int, p: Seq<u32>) -> bool {
        &&& 0 <= e < self.n() && self.src.contains_key(e) && 0 <= x < self.n()
        &&& if self.d { iwalk(self.g, p, self.c.order@[e] as int, self.c.order@[x] as int) } else { iwalk(self.g, p, self.c.order@[x] as int, self.c.order@[e] as int) }
        &&& self.src[e] + ilen(self.g, p) == self.t.td[x]
    }
    pub proof fn lemma_tp_real(&self, x: int, p: Seq<St>, z: int) -> (r: (int, int))
        requires self.ok(), self.upon(x, p, z), self.t.td[x] == self.s.td[x] || !self.flag(x),
        ensures dreal(self.d, self.g, self.tp(x), self.c.order@[r.0] as int, self.c.order@[x] as int, r.1), self.src.contains_key(r.0), self.src[r.0] + r.1 == self.t.td[x], 0 <= r.0 < self.n()
        decreases self.n() - x
    {
        reveal_with_fuel(Tr::tp, 2); 
        if self.flag(x) { let l = self.lemma_asc_real(x); (self.src_of(x), l) }
        else {
            let r = self.lemma_back(x, p, z);
            let y = self.hd(x); let a = self.t.pa[x] as int;
            assert(self.t.td[y] + self.h().b.wt[a] == self.t.td[x] && (self.flag(y) ==> self.t.td[y] == self.s.td[y])) by {
                reveal(Tr::ok);
                let i = choose|i: int| 0 <= i < self.cnt && #[trigger] self.sel[i] == x;
                assert(traced(&self.s, self.h(), self.t.td, &self.t.w, self.t.pa, self.sel[i] as int));
                assert(self.h().b.arc(self.sel[i] as int, a));
                let j = choose|j: int| 0 <= j < self.cnt && #[trigger] self.sel[j] == y;
                assert(traced(&self.s, self.h(), self.t.td, &self.t.w, self.t.pa, self.sel[j] as int));
            }
            let (e, l) = self.lemma_tp_real(y, r, z);
            self.lemma_arc(x, a);
            self.dreal_cat(self.tp(y), self.dx(x, a), self.c.order@[e] as int, self.c.order@[y] as int, self.c.order@[x] as int, l, self.h().b.wt[a] as int);
            (e, l + self.h().b.wt[a])
        }
    }
    // the extra weight o of the selected node x is that of a shortest way
    pub open spec fn right(&self, x: int, o: u32) -> bool {
        if self.t.td[x] == INF() { o == 0 } else { exists|e: int, p: Seq<u32>| #[trigger] self.explains(x, e, p) && o == comb(self.w, p) }
    }
    pub proof fn lemma_right(&self, x: int, o: u32)
        requires self.ok(), insel(self.sel, self.cnt, x), self.t.td[x] < INF(), o == xw(self.w, self.tp(x)),
        ensures self.right(x, o)
    {
        self.lemma_start(x);
        assert(self.flag(x) ==> self.t.td[x] == self.s.td[x]) by { assert(wl(Seq::<St>::empty()) == 0); }
        let (e, l) = self.lemma_tp_real(x, Seq::empty(), x);
        reveal(real);
        assert(self.explains(x, e, arcs(self.tp(x))));
    }
}
