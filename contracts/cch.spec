sharefield CustomizableContractionHierarchyMetric cch CustomizableContractionHierarchy
sharefield CustomizableContractionHierarchyMetric input_weight Vec<u32>
sharefield CustomizableContractionHierarchyPartialCustomization cch CustomizableContractionHierarchy
opaque LocalIDMapper #[verifier::external_body] pub struct LocalIDMapper { x: u64 }
extern LocalIDMapper::to_local LocalIDMapper_to_local

fn extract_initial_metric_of_cch_arc
  requires
    - old(metric).shape()
    - old(metric).c() == *cch
    - cch.arc(cch_arc as int)
  ensures
    - final(metric).cch == old(metric).cch && final(metric).input_weight == old(metric).input_weight
    - final(metric).forward@ =~= old(metric).forward@.update(cch_arc as int, cch.initf(final(metric).w(), cch_arc as int) as u32)
    - final(metric).backward@ =~= old(metric).backward@.update(cch_arc as int, cch.initb(final(metric).w(), cch_arc as int) as u32)
  entry
    proof { lemma_init_bounds(cch, metric.w(), cch_arc as int); }
  loop 0 invariant
    - metric.cch == old(metric).cch && metric.input_weight == old(metric).input_weight
    - i == cch.exl(cch_arc as int)
    - cch.first_extra_forward_input_arc_of_cch@[i as int] <= j <= cch.first_extra_forward_input_arc_of_cch@[i + 1]
    - metric.forward@ =~= old(metric).forward@.update(cch_arc as int, fold_min(metric.w(), cch.extra_forward_input_arc_of_cch@, cch.first_extra_forward_input_arc_of_cch@[i as int] as int, j as int, first_w(metric.w(), cch.forward_input_arc_of_cch@[cch.loc(cch_arc as int)])) as u32)
    - metric.backward@ =~= old(metric).backward@.update(cch_arc as int, first_w(metric.w(), cch.backward_input_arc_of_cch@[cch.loc(cch_arc as int)]) as u32)
  loop 0 decreases cch.first_extra_forward_input_arc_of_cch@[i + 1] - j
  loop 0 begin
    proof { lemma_fold_bounds(metric.w(), cch.extra_forward_input_arc_of_cch@, cch.first_extra_forward_input_arc_of_cch@[i as int] as int, j as int, first_w(metric.w(), cch.forward_input_arc_of_cch@[cch.loc(cch_arc as int)])); }
  loop 1 invariant
    - metric.cch == old(metric).cch && metric.input_weight == old(metric).input_weight
    - i == cch.exl(cch_arc as int)
    - cch.first_extra_backward_input_arc_of_cch@[i as int] <= j <= cch.first_extra_backward_input_arc_of_cch@[i + 1]
    - metric.forward@ =~= old(metric).forward@.update(cch_arc as int, cch.initf(metric.w(), cch_arc as int) as u32)
    - metric.backward@ =~= old(metric).backward@.update(cch_arc as int, fold_min(metric.w(), cch.extra_backward_input_arc_of_cch@, cch.first_extra_backward_input_arc_of_cch@[i as int] as int, j as int, first_w(metric.w(), cch.backward_input_arc_of_cch@[cch.loc(cch_arc as int)])) as u32)
  loop 1 decreases cch.first_extra_backward_input_arc_of_cch@[i + 1] - j
  loop 1 begin
    proof { lemma_fold_bounds(metric.w(), cch.extra_backward_input_arc_of_cch@, cch.first_extra_backward_input_arc_of_cch@[i as int] as int, j as int, first_w(metric.w(), cch.backward_input_arc_of_cch@[cch.loc(cch_arc as int)])); }

fn extract_initial_metric
  requires
    - old(metric).shape()
    - old(metric).c() == *cch
  ensures
    - final(metric).cch == old(metric).cch && final(metric).input_weight == old(metric).input_weight
    - final(metric).shape()
    - forall|a: int| #[trigger] cch.arc(a) ==> final(metric).forward@[a] == cch.initf(final(metric).w(), a) && final(metric).backward@[a] == cch.initb(final(metric).w(), a)
  loop 0 invariant
    - cch_arc <= cch.m()
    - metric.cch == old(metric).cch && metric.input_weight == old(metric).input_weight
    - metric.shape()
    - forall|a: int| #[trigger] cch.arc(a) && a < cch_arc ==> metric.forward@[a] == cch.initf(metric.w(), a) && metric.backward@[a] == cch.initb(metric.w(), a)
  loop 0 decreases cch.m() - cch_arc
  loop 0 begin
    proof { lemma_init_bounds(cch, metric.w(), cch_arc as int); }

fn CustomizableContractionHierarchyMetric::customize
  requires
    - old(this).shape()
  ensures
    - final(this).cch == old(this).cch && final(this).input_weight == old(this).input_weight
    - final(this).shape()
    - final(this).c().customized(final(this).w(), final(this).forward@, final(this).backward@)
  entry
    let ghost c = this.c(); let ghost w = this.w();
  loop 0 before
    proof {
        assert forall|t: int| #[trigger] c.arc(t) implies c.witf(w, this.forward@, this.backward@, t) && c.witb(w, this.forward@, this.backward@, t) by { intro_witf(&c, w, this.forward@, this.backward@, 0, 0, t); intro_witb(&c, w, this.forward@, this.backward@, 0, 0, t); }
        assert forall|t: int| #[trigger] c.arc(t) implies this.forward@[t] <= INF() && this.backward@[t] <= INF() by { lemma_init_bounds(&c, w, t); }
    }
  loop 0 invariant
    - this.shape() && this.cch == old(this).cch && this.input_weight == old(this).input_weight
    - c == this.c() && w == this.w()
    - x <= c.n()
    - c.cust_inv(w, this.forward@, this.backward@, x as int)
    - forall|t: int| #[trigger] c.arc(t) && c.tl(t) >= x ==> this.forward@[t] == c.initf(w, t) && this.backward@[t] == c.initb(w, t)
    - arc_id_cache@.len() == c.n()
    - forall|z: int| 0 <= z < c.n() ==> #[trigger] arc_id_cache@[z] == 0 || arc_id_cache@[z] < c.m()
  loop 0 decreases c.n() - x
  loop 0 begin
    proof { assert(c.up_first_out@[x as int] <= c.up_first_out@[x + 1]); assert(c.down_first_out@[x as int] <= c.down_first_out@[x + 1]); assert(c.up_first_out@[x + 1] <= c.up_first_out@[c.n()]); assert(c.down_first_out@[x + 1] <= c.down_first_out@[c.n()]); }
  loop 0 end
    proof {
        assert forall|t: int| #[trigger] c.arc(t) && c.tl(t) < x + 1 implies c.lower_ok(this.forward@, this.backward@, t) by {
            if c.tl(t) == x {
                assert forall|b: int, m: int| #[trigger] c.tri(b, m, t) implies c.le_tri(this.forward@, this.backward@, b, m, t) by {
                    let d = choose|d: int| #[trigger] c.down(d, c.hd(b)) && c.down_to_up@[d] == b;
                    assert(c.down(d, x as int));
                }
            }
        }
    }
  loop 1 invariant
    - c.up_first_out@[x as int] <= xz_up <= xz_up_end
    - xz_up_end == c.up_first_out@[x + 1]
    - arc_id_cache@.len() == c.n()
    - forall|a: int| #[trigger] c.arc(a) && c.up_first_out@[x as int] <= a < xz_up ==> arc_id_cache@[c.hd(a)] == a
    - forall|z: int| 0 <= z < c.n() ==> #[trigger] arc_id_cache@[z] == 0 || arc_id_cache@[z] < c.m()
  loop 1 decreases xz_up_end - xz_up
  loop 1 begin
    proof {
        lemma_range(&c, xz_up as int, x as int);
        assert forall|a: int| #[trigger] c.arc(a) && c.up_first_out@[x as int] <= a < xz_up implies c.hd(a) != c.hd(xz_up as int) by { lemma_range(&c, a, x as int); }
    }
  loop 2 before
    proof {
        assert forall|a: int| #[trigger] c.arc(a) && c.tl(a) == x implies arc_id_cache@[c.hd(a)] == a by { }
        assert(c.cache_ok(arc_id_cache@, x as int));
    }
  loop 2 invariant
    - this.shape() && this.cch == old(this).cch && this.input_weight == old(this).input_weight
    - c == this.c() && w == this.w()
    - c.down_first_out@[x as int] <= xy_down <= xy_down_end
    - xy_down_end == c.down_first_out@[x + 1]
    - c.cust_inv(w, this.forward@, this.backward@, x as int)
    - c.done(this.forward@, this.backward@, x as int, xy_down as int)
  loop 2 decreases xy_down_end - xy_down
  loop 2 begin
    proof { assert(c.down(xy_down as int, x as int)); assert(c.arc(c.down_to_up@[xy_down as int] as int)); }
  loop 2 end
    proof {
        assert forall|b: int, m: int, t: int, d: int| #[trigger] c.tri(b, m, t) && c.tl(t) == x && #[trigger] c.down(d, x as int) && c.down_to_up@[d] == b && d < xy_down + 1 implies c.le_tri(this.forward@, this.backward@, b, m, t) by {
            if d == xy_down { assert(b == yx_up); }
        }
    }
  loop 3 before
    proof { assert(c.done1(this.forward@, this.backward@, yx_up as int, c.up_first_out@[y + 1] as int)) by {
        assert forall|m: int, t: int| #[trigger] c.tri(yx_up as int, m, t) && m >= c.up_first_out@[y + 1] implies false by { }
      } }
  loop 3 invariant_except_break
    - c.done1(this.forward@, this.backward@, yx_up as int, yz_up_reversed as int)
  loop 3 invariant
    - this.shape() && this.cch == old(this).cch && this.input_weight == old(this).input_weight
    - c == this.c() && w == this.w()
    - c.arc(yx_up as int) && c.tl(yx_up as int) == y && c.hd(yx_up as int) == x
    - c.up_first_out@[y as int] <= yz_up_reversed <= c.up_first_out@[y + 1]
    - yz_up_end_reversed == c.up_first_out@[y as int]
    - c.cust_inv(w, this.forward@, this.backward@, x as int)
    - c.done(this.forward@, this.backward@, x as int, xy_down as int)
  loop 3 ensures
    - c.done1(this.forward@, this.backward@, yx_up as int, 0)
  loop 3 decreases yz_up_reversed
  loop 3 begin
    let ghost f0 = this.forward@; let ghost g0 = this.backward@;
    proof {
        lemma_range(&c, yz_up_reversed - 1, y as int);
        let m0 = yz_up_reversed - 1;
        if c.hd(m0) <= x {
            assert forall|m: int, t: int| #[trigger] c.tri(yx_up as int, m, t) && m >= 0 implies c.le_tri(this.forward@, this.backward@, yx_up as int, m, t) by { if m <= m0 { assert(c.hd(m) <= c.hd(m0)); } }
        }
    }
  loop 3 end
    proof {
        let a = arc_id_cache@[z as int] as int;
        assert(this.forward@ =~= f0.update(a, min2(f0[a] as int, g0[yx_up as int] + f0[yz_up as int]) as u32));
        assert(this.backward@ =~= g0.update(a, min2(g0[a] as int, f0[yx_up as int] + g0[yz_up as int]) as u32));
        lemma_relax(&c, w, f0, g0, this.forward@, this.backward@, arc_id_cache@, x as int, xy_down as int, yx_up as int, yz_up as int);
    }
  loop 3 after
    proof { assert(c.done1(this.forward@, this.backward@, yx_up as int, 0)) by {
        assert forall|m: int, t: int| #[trigger] c.tri(yx_up as int, m, t) && m >= 0 implies c.le_tri(this.forward@, this.backward@, yx_up as int, m, t) by { }
      } }
  loop 4 before
    proof { assert forall|t: int| #[trigger] c.arc(t) implies c.local(w, this.forward@, this.backward@, t) by { assert(c.lower_ok(this.forward@, this.backward@, t)); } }
  loop 4 invariant
    - a <= c.m()
  loop 4 decreases c.m() - a
  loop 4 begin
    proof { assert(c.arc(a as int)); }
  loop 5 invariant
    - c.arc(xy as int) && c.tl(xy as int) == x && c.hd(xy as int) == y
    - xy < x_up_arc <= x_up_arc_end
    - x_up_arc_end == c.up_first_out@[x + 1] && y_up_arc_end == c.up_first_out@[y + 1]
    - c.up_first_out@[y as int] <= y_up_arc <= y_up_arc_end
  loop 5 decreases (x_up_arc_end - x_up_arc) + (y_up_arc_end - y_up_arc)
  loop 5 begin
    proof {
        lemma_range(&c, x_up_arc as int, x as int); lemma_range(&c, y_up_arc as int, y as int);
        if c.hd(x_up_arc as int) == c.hd(y_up_arc as int) { assert(c.tri(xy as int, x_up_arc as int, y_up_arc as int)); assert(c.local(w, this.forward@, this.backward@, y_up_arc as int)); assert(c.le_tri(this.forward@, this.backward@, xy as int, x_up_arc as int, y_up_arc as int)); }
    }

fn CustomizableContractionHierarchyMetric::CustomizableContractionHierarchyMetric sig=/vector/ rust=/Metric_new_vec/
  ret r
  requires
    - cch.wf()
    - cch.weights_ok(input_weight@)
  ensures
    - r.shape() && r.c() == *cch && r.w() == input_weight@

fn CustomizableContractionHierarchyMetric::CustomizableContractionHierarchyMetric sig=/unsigned int \*/ rust=/Metric_new_ptr/
  ret r
  sharedptr input_weight Vec<u32>
  requires
    - cch.wf()
    - !input_weight.null() && cch.weights_ok(input_weight.val()@)
  ensures
    - r.shape() && r.c() == *cch && r.input_weight == *input_weight

fn CustomizableContractionHierarchyMetric::reset sig=/Hierarchy &, const std::vector/ rust=/Metric_reset_cv/
  requires
    - old(this).forward@.len() == old(this).backward@.len()
    - cch.wf()
    - cch.weights_ok(input_weight@)
  ensures
    - final(this).shape() && final(this).c() == *cch && final(this).w() == input_weight@

fn CustomizableContractionHierarchyMetric::reset sig=/\(const std::vector/ rust=/Metric_reset_v/
  requires
    - old(this).shape()
    - old(this).c().weights_ok(input_weight@)
  ensures
    - final(this).shape() && final(this).cch == old(this).cch && final(this).w() == input_weight@
    - final(this).forward@ == old(this).forward@ && final(this).backward@ == old(this).backward@

fn CustomizableContractionHierarchyMetric::reset sig=/Hierarchy &, const unsigned/ rust=/Metric_reset_cp/
  sharedptr input_weight_ Vec<u32>
  requires
    - cch_.wf()
    - old(this).forward@.len() == old(this).backward@.len()
    - !input_weight_.null() && cch_.weights_ok(input_weight_.val()@)
  ensures
    - final(this).shape() && final(this).c() == *cch_ && final(this).input_weight == *input_weight_

fn CustomizableContractionHierarchyMetric::reset sig=/\(const unsigned/ rust=/Metric_reset_p/
  sharedptr input_weight_ Vec<u32>
  requires
    - old(this).shape()
    - !input_weight_.null() && old(this).c().weights_ok(input_weight_.val()@)
  ensures
    - final(this).shape() && final(this).cch == old(this).cch && final(this).input_weight == *input_weight_
    - final(this).forward@ == old(this).forward@ && final(this).backward@ == old(this).backward@

fn CustomizableContractionHierarchyPartialCustomization::CustomizableContractionHierarchyPartialCustomization sig=/Hierarchy &/ rust=/Partial_new/
  ret r
  requires
    - cch_.wf()
  ensures
    - r.shape() && r.c() == *cch_
    - forall|a: int| !#[trigger] has(r.q, a)

fn CustomizableContractionHierarchyPartialCustomization::reset sig=/\(\)/ rust=/Partial_reset0/
  requires
    - old(this).shape()
  ensures
    - final(this).shape() && final(this).cch == old(this).cch
    - forall|a: int| !#[trigger] has(final(this).q, a)

fn CustomizableContractionHierarchyPartialCustomization::reset sig=/Hierarchy &/ rust=/Partial_reset/
  requires
    - wf(old(this).q)
    - cch_.wf()
  ensures
    - final(this).shape() && final(this).c() == *cch_
    - forall|a: int| !#[trigger] has(final(this).q, a)

fn CustomizableContractionHierarchyPartialCustomization::update_arc
  requires
    - old(this).shape()
    - xy < old(this).c().k()
  ensures
    - final(this).shape() && final(this).cch == old(this).cch
    - forall|a: int| #[trigger] has(final(this).q, a) == (has(old(this).q, a) || (a == old(this).c().input_arc_to_cch_arc@[xy as int] && a != 0xFFFF_FFFF))

fn CustomizableContractionHierarchyPartialCustomization::customize
  requires
    - old(this).shape()
    - old(metric).shape() && old(metric).cch == old(this).cch
    - old(this).c().bounded(old(metric).forward@, old(metric).backward@)
    - old(this).c().local_except(old(metric).w(), old(metric).forward@, old(metric).backward@, old(this).q)
  ensures
    - final(this).shape() && final(this).cch == old(this).cch
    - forall|a: int| !#[trigger] has(final(this).q, a)
    - final(metric).shape() && final(metric).cch == old(metric).cch && final(metric).input_weight == old(metric).input_weight
    - final(metric).c().customized(final(metric).w(), final(metric).forward@, final(metric).backward@)
  hide wf has
  entry
    let ghost c = this.c(); let ghost w = metric.w();
  loop 0 invariant
    - this.shape() && this.cch == old(this).cch && c == this.c()
    - metric.shape() && metric.cch == old(metric).cch && metric.input_weight == old(metric).input_weight && w == metric.w()
    - c.bounded(metric.forward@, metric.backward@)
    - c.local_except(w, metric.forward@, metric.backward@, this.q)
  loop 0 decreases 0xFFFF_FFFF - this.q.min_id
  loop 0 begin
    let ghost f0 = metric.forward@; let ghost g0 = metric.backward@;
    let ghost qq = this.q;
    proof { lemma_has_min(qq); assert(c.arc(qq.min_id as int)); }
  loop 0 end
    proof {
        assert forall|u: int| #[trigger] c.arc(u) && u != xy implies c.local(w, f0, g0, u) || has(this.q, u) by { assert(has(this.q, u) == has(this.q, u)); assert(c.local(w, f0, g0, u) || has(qq, u)); }
        lemma_partial(&c, w, f0, g0, metric.forward@, metric.backward@, xy as int, this.q);
        lemma_min_id(this.q, xy as int);
    }
  loop 1 before
    proof {
        assert(c.arc(xy as int)); lemma_init_bounds(&c, w, xy as int);
        assert(metric.forward@ =~= f0.update(xy as int, metric.forward@[xy as int]));
        assert(metric.backward@ =~= g0.update(xy as int, metric.backward@[xy as int]));
        intro_witf(&c, w, metric.forward@, metric.backward@, 0, 0, xy as int); intro_witb(&c, w, metric.forward@, metric.backward@, 0, 0, xy as int);
        assert(c.down_first_out@[x as int] <= c.down_first_out@[x + 1] && c.down_first_out@[y as int] <= c.down_first_out@[y + 1]);
    }
  loop 1 invariant
    - metric.shape() && metric.cch == old(metric).cch && metric.input_weight == old(metric).input_weight && w == metric.w()
    - c.bounded(metric.forward@, metric.backward@)
    - metric.forward@ =~= f0.update(xy as int, metric.forward@[xy as int])
    - metric.backward@ =~= g0.update(xy as int, metric.backward@[xy as int])
    - c.arc(xy as int) && c.tl(xy as int) == x && c.hd(xy as int) == y
    - c.down_first_out@[x as int] <= x_down_arc <= x_down_arc_end && x_down_arc_end == c.down_first_out@[x + 1]
    - c.down_first_out@[y as int] <= y_down_arc <= y_down_arc_end && y_down_arc_end == c.down_first_out@[y + 1]
    - metric.forward@[xy as int] <= c.initf(w, xy as int) && metric.backward@[xy as int] <= c.initb(w, xy as int)
    - c.witf(w, metric.forward@, metric.backward@, xy as int) && c.witb(w, metric.forward@, metric.backward@, xy as int)
    - forall|d: int, e: int| #[trigger] c.down(d, x as int) && #[trigger] c.down(e, y as int) && c.down_head@[d] == c.down_head@[e] && (d < x_down_arc || e < y_down_arc) ==> c.le_tri(metric.forward@, metric.backward@, c.down_to_up@[d] as int, c.down_to_up@[e] as int, xy as int)
  loop 1 decreases (x_down_arc_end - x_down_arc) + (y_down_arc_end - y_down_arc)
  loop 1 begin
    let ghost f1 = metric.forward@; let ghost g1 = metric.backward@; let ghost xd = x_down_arc as int; let ghost yd = y_down_arc as int;
    proof {
        assert(c.down(xd, x as int)); assert(c.down(yd, y as int));
        lemma_down_range(&c, xd, x as int); lemma_down_range(&c, yd, y as int);
        if c.down_head@[xd] == c.down_head@[yd] { assert(c.tri(c.down_to_up@[xd] as int, c.down_to_up@[yd] as int, xy as int)); lemma_lower(&c, c.down_to_up@[xd] as int, c.down_to_up@[yd] as int, xy as int); }
    }
  loop 1 end
    proof {
        let b = c.down_to_up@[xd] as int; let m = c.down_to_up@[yd] as int; let t = xy as int;
        if c.down_head@[xd] == c.down_head@[yd] {
            if metric.forward@[t] != f1[t] || metric.forward@[t] == c.initf(w, t) { intro_witf(&c, w, metric.forward@, metric.backward@, b, m, t); }
            else { let (p, q) = open_witf(&c, w, f1, g1, t); lemma_lower(&c, p, q, t); intro_witf(&c, w, metric.forward@, metric.backward@, p, q, t); }
            if metric.backward@[t] != g1[t] || metric.backward@[t] == c.initb(w, t) { intro_witb(&c, w, metric.forward@, metric.backward@, b, m, t); }
            else { let (p, q) = open_witb(&c, w, f1, g1, t); lemma_lower(&c, p, q, t); intro_witb(&c, w, metric.forward@, metric.backward@, p, q, t); }
            assert(c.le_tri(metric.forward@, metric.backward@, b, m, t));
        }
        assert forall|d: int, e: int| #[trigger] c.down(d, x as int) && #[trigger] c.down(e, y as int) && c.down_head@[d] == c.down_head@[e] && (d < x_down_arc || e < y_down_arc) implies c.le_tri(metric.forward@, metric.backward@, c.down_to_up@[d] as int, c.down_to_up@[e] as int, t) by {
            lemma_down_range(&c, d, x as int); lemma_down_range(&c, e, y as int);
            assert(c.tri(c.down_to_up@[d] as int, c.down_to_up@[e] as int, t)); lemma_lower(&c, c.down_to_up@[d] as int, c.down_to_up@[e] as int, t);
            if d < xd || e < yd { assert(c.le_tri(f1, g1, c.down_to_up@[d] as int, c.down_to_up@[e] as int, t)); }
            else { assert(d == xd && e == yd); }
        }
    }
  loop 1 after
    proof {
        assert(c.local(w, metric.forward@, metric.backward@, xy as int)) by {
            assert forall|b: int, m: int| #[trigger] c.tri(b, m, xy as int) implies c.le_tri(metric.forward@, metric.backward@, b, m, xy as int) by {
                let d = lemma_down_of(&c, b); let e = lemma_down_of(&c, m);
                assert(c.down(d, x as int) && c.down(e, y as int));
            }
        }
    }
  loop 2 before
    let ghost q1 = this.q;
    proof { assert(c.up_first_out@[x as int] <= xy); assert(c.down_first_out@[y as int] <= c.down_first_out@[y + 1]); }
  loop 2 invariant
    - this.shape() && this.cch == old(this).cch
    - c.arc(xy as int) && c.tl(xy as int) == x && c.hd(xy as int) == y
    - c.up_first_out@[x as int] <= x_up_arc <= x_up_arc_end && x_up_arc_end == xy
    - c.down_first_out@[y as int] <= y_down_arc <= y_down_arc_end && y_down_arc_end == c.down_first_out@[y + 1]
    - forall|i: int| #[trigger] has(this.q, i) ==> i > xy
    - forall|i: int| #[trigger] has(qq, i) && i != xy ==> has(this.q, i)
    - forall|b: int, e: int| #[trigger] c.in_up(b, x as int) && #[trigger] c.down(e, y as int) && b < xy && c.hd(b) == c.down_head@[e] && (b < x_up_arc || e < y_down_arc) ==> c.ok_mid(f0, g0, metric.forward@, metric.backward@, this.q, xy as int, b, c.down_to_up@[e] as int)
  loop 2 decreases (x_up_arc_end - x_up_arc) + (y_down_arc_end - y_down_arc)
  loop 2 begin
    let ghost q2 = this.q; let ghost xu = x_up_arc as int; let ghost yd = y_down_arc as int;
    proof {
        lemma_range(&c, xu, x as int); assert(c.down(yd, y as int)); lemma_down_range(&c, yd, y as int);
        if c.hd(xu) == c.down_head@[yd] { assert(c.tri(xu, xy as int, c.down_to_up@[yd] as int)); lemma_lower(&c, xu, xy as int, c.down_to_up@[yd] as int); }
    }
  loop 2 end
    proof {
        assert forall|b: int, e: int| #[trigger] c.in_up(b, x as int) && #[trigger] c.down(e, y as int) && b < xy && c.hd(b) == c.down_head@[e] && (b < x_up_arc || e < y_down_arc) implies c.ok_mid(f0, g0, metric.forward@, metric.backward@, this.q, xy as int, b, c.down_to_up@[e] as int) by {
            lemma_range(&c, b, x as int); lemma_down_range(&c, e, y as int);
            if b < xu || e < yd { assert(c.ok_mid(f0, g0, metric.forward@, metric.backward@, q2, xy as int, b, c.down_to_up@[e] as int)); assert(has(q2, c.down_to_up@[e] as int) ==> has(this.q, c.down_to_up@[e] as int)); }
            else { assert(b == xu && e == yd); }
        }
    }
  loop 2 after
    proof {
        assert forall|b: int, u: int| #[trigger] c.tri(b, xy as int, u) implies c.ok_mid(f0, g0, metric.forward@, metric.backward@, this.q, xy as int, b, u) by {
            lemma_lower(&c, b, xy as int, u);
            let e = lemma_down_of(&c, u); assert(c.in_up(b, x as int)); assert(c.down(e, y as int));
        }
    }
  loop 3 before
    proof { assert(c.up_first_out@[y as int] <= c.up_first_out@[y + 1]); }
  loop 3 invariant
    - this.shape() && this.cch == old(this).cch
    - c.arc(xy as int) && c.tl(xy as int) == x && c.hd(xy as int) == y
    - xy < x_up_arc <= x_up_arc_end && x_up_arc_end == c.up_first_out@[x + 1]
    - c.up_first_out@[y as int] <= y_up_arc <= y_up_arc_end && y_up_arc_end == c.up_first_out@[y + 1]
    - forall|i: int| #[trigger] has(this.q, i) ==> i > xy
    - forall|i: int| #[trigger] has(qq, i) && i != xy ==> has(this.q, i)
    - forall|b: int, u: int| #[trigger] c.tri(b, xy as int, u) ==> c.ok_mid(f0, g0, metric.forward@, metric.backward@, this.q, xy as int, b, u)
    - forall|m: int, u: int| #[trigger] c.tri(xy as int, m, u) && (m < x_up_arc || u < y_up_arc) ==> c.ok_bot(f0, g0, metric.forward@, metric.backward@, this.q, xy as int, m, u)
  loop 3 decreases (x_up_arc_end - x_up_arc) + (y_up_arc_end - y_up_arc)
  loop 3 begin
    let ghost q2 = this.q; let ghost xu = x_up_arc as int; let ghost yu = y_up_arc as int;
    proof {
        lemma_range(&c, xu, x as int); lemma_range(&c, yu, y as int);
        if c.hd(xu) == c.hd(yu) { assert(c.tri(xy as int, xu, yu)); lemma_lower(&c, xy as int, xu, yu); }
    }
  loop 3 end
    proof {
        assert forall|b: int, u: int| #[trigger] c.tri(b, xy as int, u) implies c.ok_mid(f0, g0, metric.forward@, metric.backward@, this.q, xy as int, b, u) by {
            assert(c.ok_mid(f0, g0, metric.forward@, metric.backward@, q2, xy as int, b, u)); assert(has(q2, u) ==> has(this.q, u));
        }
        assert forall|m: int, u: int| #[trigger] c.tri(xy as int, m, u) && (m < x_up_arc || u < y_up_arc) implies c.ok_bot(f0, g0, metric.forward@, metric.backward@, this.q, xy as int, m, u) by {
            lemma_lower(&c, xy as int, m, u);
            if m < xu || u < yu { assert(c.ok_bot(f0, g0, metric.forward@, metric.backward@, q2, xy as int, m, u)); assert(has(q2, u) ==> has(this.q, u)); }
            else if m > xu { assert(u == yu); assert(c.hd(xu) < c.hd(m)); }
            else if u > yu { assert(c.hd(yu) < c.hd(u)); }
        }
    }
  loop 3 after
    proof {
        assert forall|m: int, u: int| #[trigger] c.tri(xy as int, m, u) implies c.ok_bot(f0, g0, metric.forward@, metric.backward@, this.q, xy as int, m, u) by { lemma_lower(&c, xy as int, m, u); }
    }
  loop 4 before
    proof { assert forall|t: int| #[trigger] c.arc(t) implies c.local(w, metric.forward@, metric.backward@, t) by { assert(!(has(this.q, t))); } }
  loop 4 invariant
    - a <= c.m()
  loop 4 decreases c.m() - a
  loop 4 begin
    proof { assert(c.arc(a as int)); }
  loop 5 invariant
    - c.arc(xy as int) && c.tl(xy as int) == x && c.hd(xy as int) == y
    - xy < x_up_arc <= x_up_arc_end
    - x_up_arc_end == c.up_first_out@[x + 1] && y_up_arc_end == c.up_first_out@[y + 1]
    - c.up_first_out@[y as int] <= y_up_arc <= y_up_arc_end
  loop 5 decreases (x_up_arc_end - x_up_arc) + (y_up_arc_end - y_up_arc)
  loop 5 begin
    proof {
        lemma_range(&c, x_up_arc as int, x as int); lemma_range(&c, y_up_arc as int, y as int);
        if c.hd(x_up_arc as int) == c.hd(y_up_arc as int) { assert(c.tri(xy as int, x_up_arc as int, y_up_arc as int)); assert(c.local(w, metric.forward@, metric.backward@, y_up_arc as int)); assert(c.le_tri(metric.forward@, metric.backward@, xy as int, x_up_arc as int, y_up_arc as int)); }
    }
