// well-formed customizable contraction hierarchies
pub open spec fn INF() -> int { 2147483647 }
pub open spec fn INV() -> int { 0xFFFF_FFFF }
pub type CCH = CustomizableContractionHierarchy;
pub open spec fn tree_ok(par: Seq<u32>) -> bool {
    par.len() < 0x4000_0000 && forall|x: int| 0 <= x < par.len() ==> (#[trigger] par[x]) == INV() || x < par[x] < par.len()
}
// y is an ancestor of x or x itself
pub open spec fn anc(par: Seq<u32>, x: int, y: int) -> bool
    decreases par.len() - x
{ 0 <= x < par.len() && (x == y || (x < par[x] < par.len() && anc(par, par[x] as int, y))) }
impl CustomizableContractionHierarchy {
    pub open spec fn n(&self) -> int { self.rank@.len() as int }
    pub open spec fn m(&self) -> int { self.up_head@.len() as int }
    pub open spec fn k(&self) -> int { self.input_arc_to_cch_arc@.len() as int }
    pub open spec fn tl(&self, a: int) -> int { self.up_tail@[a] as int }
    pub open spec fn hd(&self, a: int) -> int { self.up_head@[a] as int }
    pub open spec fn arc(&self, a: int) -> bool { 0 <= a < self.m() }
    pub open spec fn wf_up(&self) -> bool {
        &&& self.n() < 0x4000_0000 && self.m() < 0x7FFF_FFFF
        &&& self.up_first_out@.len() == self.n() + 1 && self.up_tail@.len() == self.m()
        &&& self.up_first_out@[0] == 0 && self.up_first_out@[self.n()] == self.m()
        &&& forall|i: int, j: int| 0 <= i <= j <= self.n() ==> #[trigger] self.up_first_out@[i] <= #[trigger] self.up_first_out@[j]
        &&& forall|a: int| #[trigger] self.arc(a) ==> 0 <= self.tl(a) < self.hd(a) < self.n()
                && self.up_first_out@[self.tl(a)] <= a < self.up_first_out@[self.tl(a) + 1]
        &&& forall|a: int, b: int| #[trigger] self.arc(a) && #[trigger] self.arc(b) && a < b && self.tl(a) == self.tl(b) ==> self.hd(a) < self.hd(b)
    }
    pub open spec fn down(&self, d: int, x: int) -> bool { 0 <= x < self.n() && self.down_first_out@[x] <= d < self.down_first_out@[x + 1] }
    pub open spec fn wf_down(&self) -> bool {
        &&& self.down_first_out@.len() == self.n() + 1 && self.down_head@.len() == self.m() && self.down_to_up@.len() == self.m()
        &&& self.down_first_out@[0] == 0 && self.down_first_out@[self.n()] == self.m()
        &&& forall|i: int, j: int| 0 <= i <= j <= self.n() ==> #[trigger] self.down_first_out@[i] <= #[trigger] self.down_first_out@[j]
        &&& forall|d: int, x: int| #[trigger] self.down(d, x) ==> self.arc(self.down_to_up@[d] as int)
                && self.hd(self.down_to_up@[d] as int) == x && self.tl(self.down_to_up@[d] as int) == self.down_head@[d]
        &&& forall|d: int, e: int, x: int| #[trigger] self.down(d, x) && #[trigger] self.down(e, x) && d < e ==> self.down_head@[d] < self.down_head@[e]
        &&& forall|a: int| #[trigger] self.arc(a) ==> exists|d: int| #[trigger] self.down(d, self.hd(a)) && self.down_to_up@[d] == a
    }
    // b: y->x, m: y->z, t: x->z with y < x < z
    pub open spec fn tri(&self, b: int, m: int, t: int) -> bool {
        &&& self.arc(b) && self.arc(m) && self.arc(t)
        &&& self.tl(b) == self.tl(m) && self.hd(b) == self.tl(t) && self.hd(m) == self.hd(t)
    }
    #[verifier::opaque]
    pub open spec fn chordal(&self) -> bool {
        forall|b: int, m: int| #[trigger] self.arc(b) && #[trigger] self.arc(m) && b < m && self.tl(b) == self.tl(m)
            && ((self.can(b, false) && self.can(m, true)) || (self.can(b, true) && self.can(m, false))) ==> exists|t: int| #[trigger] self.tri(b, m, t)
    }
    // an input arc in the direction exists: up (fw) or down
    pub open spec fn has_dir(&self, a: int, fw: bool) -> bool {
        self.has_in(a) && (if fw { self.forward_input_arc_of_cch@[self.loc(a)] } else { self.backward_input_arc_of_cch@[self.loc(a)] }) != 0xFFFF_FFFFu32
    }
    // the weight of arc a in the direction can be less than infinity for some metric
    pub open spec fn can(&self, a: int, fw: bool) -> bool
        decreases a
    {
        self.has_dir(a, fw) || exists|b: int, m: int| #[trigger] self.tri(b, m, a) && 0 <= b < a && 0 <= m < a && self.can(b, !fw) && self.can(m, fw)
    }
    // ranges of the tables that assign input arcs to arcs of the hierarchy
    pub open spec fn has_in(&self, a: int) -> bool { self.does_cch_arc_have_input_arc.get(a) }
    pub open spec fn has_ex(&self, a: int) -> bool { self.does_cch_arc_have_extra_input_arc.get(a) }
    pub open spec fn loc(&self, a: int) -> int { local_of(self.does_cch_arc_have_input_arc_mapper, a) as int }
    pub open spec fn exl(&self, a: int) -> int { local_of(self.does_cch_arc_have_extra_input_arc_mapper, a) as int }
    pub open spec fn in_ok(&self, j: u32) -> bool { j == 0xFFFF_FFFFu32 || j < self.k() }
    pub open spec fn wf_in(&self) -> bool {
        &&& self.k() < 0xFFFF_FFFF
        &&& forall|j: int| 0 <= j < self.k() ==> #[trigger] self.input_arc_to_cch_arc@[j] == 0xFFFF_FFFF || self.input_arc_to_cch_arc@[j] < self.m()
        &&& self.does_cch_arc_have_input_arc.room() && self.does_cch_arc_have_input_arc.n() == self.m()
        &&& self.does_cch_arc_have_extra_input_arc.room() && self.does_cch_arc_have_extra_input_arc.n() == self.m()
        &&& forall|a: int| #[trigger] self.arc(a) && self.has_in(a) ==> {
            let i = self.loc(a);
            &&& 0 <= i < self.forward_input_arc_of_cch@.len() && i < self.backward_input_arc_of_cch@.len()
            &&& i < 0x1_0000_0000
            &&& self.has_dir(a, true) ==> self.input_arc_to_cch_arc@[self.forward_input_arc_of_cch@[i] as int] == a
            &&& self.has_dir(a, false) ==> self.input_arc_to_cch_arc@[self.backward_input_arc_of_cch@[i] as int] == a
            &&& self.in_ok(self.forward_input_arc_of_cch@[i]) && self.in_ok(self.backward_input_arc_of_cch@[i])
            &&& self.has_ex(a) ==> {
                let e = self.exl(a);
                &&& 0 <= e && e + 1 < self.first_extra_forward_input_arc_of_cch@.len() && e + 1 < self.first_extra_backward_input_arc_of_cch@.len() && e + 1 < 0x1_0000_0000
                &&& self.first_extra_forward_input_arc_of_cch@[e] <= self.first_extra_forward_input_arc_of_cch@[e + 1] <= self.extra_forward_input_arc_of_cch@.len()
                &&& self.first_extra_backward_input_arc_of_cch@[e] <= self.first_extra_backward_input_arc_of_cch@[e + 1] <= self.extra_backward_input_arc_of_cch@.len()
                &&& forall|j: int| self.first_extra_forward_input_arc_of_cch@[e] <= j < self.first_extra_forward_input_arc_of_cch@[e + 1] ==> self.input_arc_to_cch_arc@[#[trigger] self.extra_forward_input_arc_of_cch@[j] as int] == a
                &&& forall|j: int| self.first_extra_backward_input_arc_of_cch@[e] <= j < self.first_extra_backward_input_arc_of_cch@[e + 1] ==> self.input_arc_to_cch_arc@[#[trigger] self.extra_backward_input_arc_of_cch@[j] as int] == a
                &&& !self.has_dir(a, true) ==> self.first_extra_forward_input_arc_of_cch@[e] == self.first_extra_forward_input_arc_of_cch@[e + 1]
                &&& !self.has_dir(a, false) ==> self.first_extra_backward_input_arc_of_cch@[e] == self.first_extra_backward_input_arc_of_cch@[e + 1]
            }
        }
        &&& forall|j: int| 0 <= j < self.extra_forward_input_arc_of_cch@.len() ==> #[trigger] self.extra_forward_input_arc_of_cch@[j] < self.k()
        &&& forall|j: int| 0 <= j < self.extra_backward_input_arc_of_cch@.len() ==> #[trigger] self.extra_backward_input_arc_of_cch@[j] < self.k()
    }
    pub open spec fn wf(&self) -> bool { self.wf_up() && self.wf_down() && self.chordal() && self.wf_in() }
    pub open spec fn wf_tree(&self) -> bool {
        &&& tree_ok(self.elimination_tree_parent@) && self.elimination_tree_parent@.len() == self.n()
        &&& forall|a: int| #[trigger] self.arc(a) ==> anc(self.elimination_tree_parent@, self.tl(a), self.hd(a))
        &&& forall|x: int| 0 <= x < self.n() ==> (#[trigger] self.rank@[x]) < self.n()
        &&& self.order@.len() == self.n()
    }
    pub open spec fn used(&self, j: int) -> bool { 0 <= j < self.k() && self.input_arc_to_cch_arc@[j] != 0xFFFF_FFFFu32 }
    pub open spec fn lk(&self, j: int) -> int { self.input_arc_to_cch_arc@[j] as int }
    pub open spec fn is_up(&self, j: int) -> bool { self.is_input_arc_upward.get(j) }
    pub open spec fn from(&self, j: int) -> int { if self.is_up(j) { self.tl(self.lk(j)) } else { self.hd(self.lk(j)) } }
    pub open spec fn to(&self, j: int) -> int { if self.is_up(j) { self.hd(self.lk(j)) } else { self.tl(self.lk(j)) } }
    pub open spec fn exf(&self, a: int, e: int) -> bool { self.first_extra_forward_input_arc_of_cch@[self.exl(a)] <= e < self.first_extra_forward_input_arc_of_cch@[self.exl(a) + 1] }
    pub open spec fn exb(&self, a: int, e: int) -> bool { self.first_extra_backward_input_arc_of_cch@[self.exl(a)] <= e < self.first_extra_backward_input_arc_of_cch@[self.exl(a) + 1] }
    // the tables list each input arc of a hierarchy arc in its direction, and no other
    pub open spec fn listed(&self, j: int) -> bool {
        let a = self.lk(j);
        &&& self.arc(a) && self.has_in(a)
        &&& self.is_up(j) ==> self.forward_input_arc_of_cch@[self.loc(a)] == j || (self.has_ex(a) && exists|e: int| #[trigger] self.exf(a, e) && self.extra_forward_input_arc_of_cch@[e] == j)
        &&& !self.is_up(j) ==> self.backward_input_arc_of_cch@[self.loc(a)] == j || (self.has_ex(a) && exists|e: int| #[trigger] self.exb(a, e) && self.extra_backward_input_arc_of_cch@[e] == j)
    }
    pub open spec fn wf_dir(&self) -> bool {
        &&& forall|j: int| #[trigger] self.used(j) ==> self.listed(j)
        &&& forall|a: int| #[trigger] self.arc(a) && self.has_dir(a, true) ==> self.is_up(self.forward_input_arc_of_cch@[self.loc(a)] as int)
        &&& forall|a: int| #[trigger] self.arc(a) && self.has_dir(a, false) ==> !self.is_up(self.backward_input_arc_of_cch@[self.loc(a)] as int)
        &&& forall|a: int, e: int| #[trigger] self.arc(a) && self.has_in(a) && self.has_ex(a) && #[trigger] self.exf(a, e) ==> self.is_up(self.extra_forward_input_arc_of_cch@[e] as int)
        &&& forall|a: int, e: int| #[trigger] self.arc(a) && self.has_in(a) && self.has_ex(a) && #[trigger] self.exb(a, e) ==> !self.is_up(self.extra_backward_input_arc_of_cch@[e] as int)
    }
    pub open spec fn all_wf(&self) -> bool { self.wf() && self.wf_tree() && self.wf_dir() }
}
