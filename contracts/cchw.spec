
fn find_arc_or_return_invalid_given_sorted_head
  requires
    - graph_ok(first_out@, head@)
    - x < first_out@.len() - 1
    - y < first_out@.len() - 1
    - seq_sorted(head@, first_out@[x as int] as int, first_out@[x + 1] as int)
  ensures
    - r != 0xFFFF_FFFF ==> is_arc(first_out@, head@, r as int, x as int, y as int)
    - r == 0xFFFF_FFFF ==> forall|a: int| !#[trigger] is_arc(first_out@, head@, a, x as int, y as int)
  entry
    proof { assert(first_out@[x + 1] <= first_out@[first_out@.len() - 1]); assert(first_out@[x as int] <= first_out@[x + 1]); }

fn find_arc_given_sorted_head
  requires
    - graph_ok(first_out@, head@)
    - x < first_out@.len() - 1
    - y < first_out@.len() - 1
    - seq_sorted(head@, first_out@[x as int] as int, first_out@[x + 1] as int)
    - exists|a: int| #[trigger] is_arc(first_out@, head@, a, x as int, y as int)
  ensures
    - is_arc(first_out@, head@, r as int, x as int, y as int)

fn unpack_original_forward_arc
  requires
    - !metric.input_weight.null() && cch.all_wf() && cch.weights_ok(metric.w())
    - cch.arc(cch_arc as int) && metric.forward@.len() == cch.m() && metric.forward@[cch_arc as int] == cch.init(metric.w(), cch_arc as int, true) && metric.forward@[cch_arc as int] < INF()
  ensures
    - cch.used(r as int) && cch.lk(r as int) == cch_arc && cch.is_up(r as int) == true && metric.w()[r as int] == metric.forward@[cch_arc as int]
  entry
    let ghost a = cch_arc as int; let ghost j0 = lemma_init_arc(cch, metric.w(), a, true);
    proof { assert(cch.listed(j0)); }
  loop 0 invariant
    - cch.first_extra_forward_input_arc_of_cch@[j as int] <= k <= cch.first_extra_forward_input_arc_of_cch@[j + 1]
    - forall|e: int| cch.first_extra_forward_input_arc_of_cch@[j as int] <= e < k ==> metric.w()[#[trigger] cch.extra_forward_input_arc_of_cch@[e] as int] != metric.forward@[a]
  loop 0 decreases cch.first_extra_forward_input_arc_of_cch@[j + 1] - k
  loop 0 begin
    proof { assert(cch.exf(a, k as int)); }

fn unpack_original_backward_arc
  requires
    - !metric.input_weight.null() && cch.all_wf() && cch.weights_ok(metric.w())
    - cch.arc(cch_arc as int) && metric.backward@.len() == cch.m() && metric.backward@[cch_arc as int] == cch.init(metric.w(), cch_arc as int, false) && metric.backward@[cch_arc as int] < INF()
  ensures
    - cch.used(r as int) && cch.lk(r as int) == cch_arc && cch.is_up(r as int) == false && metric.w()[r as int] == metric.backward@[cch_arc as int]
  entry
    let ghost a = cch_arc as int; let ghost j0 = lemma_init_arc(cch, metric.w(), a, false);
    proof { assert(cch.listed(j0)); }
  loop 0 invariant
    - cch.first_extra_backward_input_arc_of_cch@[j as int] <= k <= cch.first_extra_backward_input_arc_of_cch@[j + 1]
    - forall|e: int| cch.first_extra_backward_input_arc_of_cch@[j as int] <= e < k ==> metric.w()[#[trigger] cch.extra_backward_input_arc_of_cch@[e] as int] != metric.backward@[a]
  loop 0 decreases cch.first_extra_backward_input_arc_of_cch@[j + 1] - k
  loop 0 begin
    proof { assert(cch.exb(a, k as int)); }

fn unpack_arc in=/get_arc_path/ rust=/unpack_arc_arc/
  requires
    - !this_cap.cch.null() && !this_cap.metric.null() && this_cap.cch.val() == *cch && this_cap.metric.val() == *metric
    - !metric.input_weight.null() && cch.good(metric.w(), metric.forward@, metric.backward@) && cch.bounded(metric.forward@, metric.backward@)
    - cch.arc(xy as int) && cch.tl(xy as int) == x && cch.hd(xy as int) == y && wt(metric.forward@, metric.backward@, xy as int, is_forward) < INF()
  ensures
    - cch.app_arc(metric.w(), metric.forward@, metric.backward@, old(path)@, final(path)@, cch.unpc(metric.forward@, metric.backward@, xy as int, is_forward))
  decreases xy
  entry
    let ghost w = metric.w(); let ghost f = metric.forward@; let ghost g = metric.backward@; let ghost t = xy as int; let ghost fw = is_forward; let ghost p0 = path@; let ghost mut p1 = path@; let ghost mut tk = false;
    proof { cch.lemma_nofit_start(f, g, t, fw); }
  loop 0 invariant
    - cch.down_first_out@[x as int] <= x_down_arc <= x_down_arc_end && cch.down_first_out@[y as int] <= y_down_arc <= y_down_arc_end && x_down_arc_end <= cch.m() && y_down_arc_end <= cch.m()
  loop 0 invariant_except_break
    - bottom_node == 0xFFFF_FFFFu32 && cch.nofit(f, g, t, fw, x_down_arc as int, y_down_arc as int)
  loop 0 ensures
    - (bottom_node == 0xFFFF_FFFFu32 && cch.nofit(f, g, t, fw, x_down_arc as int, y_down_arc as int) && (x_down_arc == x_down_arc_end || y_down_arc == y_down_arc_end)) || (cch.sel(f, g, t, fw, bottom_arc as int, mid_arc as int) && bottom_node == cch.tl(bottom_arc as int))
  loop 0 decreases x_down_arc_end - x_down_arc + y_down_arc_end - y_down_arc
  loop 0 begin
    proof {
      let d = x_down_arc as int; let e = y_down_arc as int;
      assert(cch.at(t, d, e));
      if cch.down_head@[d] < cch.down_head@[e] { cch.lemma_nofit_x(f, g, t, fw, d, e); }
      else if cch.down_head@[d] > cch.down_head@[e] { cch.lemma_nofit_y(f, g, t, fw, d, e); }
      else {
        cch.lemma_at_tri(t, d, e);
        let b = cch.down_to_up@[d] as int; let m = cch.down_to_up@[e] as int;
        assert(f[b] <= INF() && g[b] <= INF() && f[m] <= INF() && g[m] <= INF());
        if cch.fit(f, g, t, fw, b, m) { cch.lemma_sel_at(f, g, t, fw, d, e); } else { cch.lemma_nofit_both(f, g, t, fw, d, e); }
      }
    }
  loop 0 after
    proof {
      if bottom_node == 0xFFFF_FFFFu32 { cch.lemma_leaf(f, g, t, fw, x_down_arc as int, y_down_arc as int); cch.lemma_leaf_init(w, f, g, t, fw); }
      else { cch.lemma_sel_unique(f, g, t, fw, bottom_arc as int, mid_arc as int); assert(cch.fit(f, g, t, fw, bottom_arc as int, mid_arc as int)); }
    }
  exit
    proof {
      if cch.leaf(f, g, t, fw) { cch.app_arc_one(w, f, g, p0, path@.last(), (Sg { a: t, fw: fw })); assert(path@ =~= p0.push(path@.last())); }
      else {
        let (b, m) = cch.pick(f, g, t, fw);
        if fw { cch.app_arc_join(w, f, g, p0, path@, cch.unpc(f, g, b, false), cch.unpc(f, g, m, true)); } else { cch.app_arc_join(w, f, g, p0, path@, cch.unpc(f, g, m, false), cch.unpc(f, g, b, true)); }
      }
    }

fn CustomizableContractionHierarchyQuery::get_arc_path
  ghost s: Seq<u32>
  ghost t: Seq<u32>
  requires
    - old(this).has_run(s, t)
  ensures
    - *final(this) == *old(this)
    - old(this).dist() == INF() ==> r@.len() == 0
    - old(this).dist() != INF() ==> old(this).path_ok(s, t, r@)
    - old(this).dist() != INF() ==> r@.len() == old(this).path().len() && forall|i: int| 0 <= i < r@.len() ==> old(this).c().stands_in(old(this).w(), old(this).f(), old(this).g(), old(this).path()[i], #[trigger] r@[i] as int)
  hide CustomizableContractionHierarchyQuery::has_run CustomizableContractionHierarchy::good CustomizableContractionHierarchy::bounded graph_ok seq_sorted CustomizableContractionHierarchyQuery::path_ok
  entry
    let ghost c = this.c(); let ghost w = this.w(); let ghost f = this.f(); let ghost g = this.g(); let ghost m = this.meet(); let ghost nil = Seq::<u32>::empty(); let ghost mut p1 = nil; let ghost mut p2 = nil; let ghost mut dn = Seq::<Sg>::empty(); let ghost rt = root(this.pf(), m);
    proof { this.lemma_facts(s, t); c.app_arc_none(w, f, g, nil); }
  loop 0 invariant
    - *this == *old(this) && x < c.n() && this.df()[x as int] < INF() && chain(this.df(), this.pf(), up_path@, m) && up_path@.last() == x && up_path@.len() + x <= m + 1
    - path@ == nil
  loop 0 decreases x
  loop 0 begin
    proof { this.lemma_pred_f(s, t, x as int); }
  loop 1 before
    proof { lemma_chain(this.df(), this.pf(), up_path@, m, up_path@.len() - 1); assert(this.ascent(up_path@.last() as int) =~= Seq::<Sg>::empty()); }
  loop 1 invariant
    - *this == *old(this) && i < up_path@.len() && chain(this.df(), this.pf(), up_path@, m)
    - c.app_arc(w, f, g, nil, path@, this.ascent(up_path@[i as int] as int))
  loop 1 decreases i
  loop 1 begin
    proof { let v = up_path@[i - 1] as int; let u = up_path@[i as int] as int; assert(v < this.df().len()); this.lemma_pred_f(s, t, v); p1 = path@; let a = c.arcof(u, v); this.lemma_find(s, t, u, v); assert(f[a] <= this.df()[v]); }
  loop 1 end
    proof { let v = up_path@[i - 1] as int; let u = up_path@[i as int] as int; c.app_arc_cat(w, f, g, nil, p1, path@, this.ascent(u), this.un(u, v, true)); }
  loop 2 before
    proof { p2 = path@; c.app_arc_none(w, f, g, p2); assert(dn + this.descent(m) =~= this.descent(m)); if y != 0xFFFF_FFFFu32 { this.lemma_pred_b(s, t, x as int); } }
  loop 2 invariant
    - *this == *old(this) && x < c.n() && this.db()[x as int] < INF() && y == this.pb()[x as int] && root(this.pb(), x as int) == root(this.pb(), m)
    - c.app_arc(w, f, g, p2, path@, dn) && dn + this.descent(x as int) == this.descent(m) && c.app_arc(w, f, g, nil, p2, this.ascent(m))
  loop 2 decreases x
  loop 2 begin
    let ghost v2 = x as int; let ghost u2 = y as int;
    proof { this.lemma_pred_b(s, t, v2); p1 = path@; let a = c.arcof(u2, v2); this.lemma_find(s, t, u2, v2); assert(g[a] <= this.db()[v2]); }
  loop 2 end
    proof { let k = this.un(u2, v2, false); c.app_arc_cat(w, f, g, p2, p1, path@, dn, k); assert((dn + k) + this.descent(u2) =~= dn + (k + this.descent(u2))); dn = dn + k; }
  loop 2 after
    proof { assert(dn =~= this.descent(m)); c.app_arc_cat(w, f, g, nil, p2, path@, this.ascent(m), dn); this.lemma_arc_path(s, t, path@); }

fn unpack_arc in=/get_node_path/ rust=/unpack_arc_node/
  requires
    - !this_cap.cch.null() && !this_cap.metric.null() && this_cap.cch.val() == *cch && this_cap.metric.val() == *metric
    - !metric.input_weight.null() && cch.good(metric.w(), metric.forward@, metric.backward@) && cch.bounded(metric.forward@, metric.backward@)
    - cch.arc(xy as int) && cch.tl(xy as int) == x && cch.hd(xy as int) == y && wt(metric.forward@, metric.backward@, xy as int, is_forward) < INF()
  ensures
    - cch.app_node(metric.w(), metric.forward@, metric.backward@, old(path)@, final(path)@, cch.unpc(metric.forward@, metric.backward@, xy as int, is_forward))
  decreases xy
  entry
    let ghost w = metric.w(); let ghost f = metric.forward@; let ghost g = metric.backward@; let ghost t = xy as int; let ghost fw = is_forward; let ghost p0 = path@; let ghost mut p1 = path@; let ghost mut tk = false;
    proof { cch.lemma_nofit_start(f, g, t, fw); }
  loop 0 invariant
    - cch.down_first_out@[x as int] <= x_down_arc <= x_down_arc_end && cch.down_first_out@[y as int] <= y_down_arc <= y_down_arc_end && x_down_arc_end <= cch.m() && y_down_arc_end <= cch.m()
  loop 0 invariant_except_break
    - bottom_node == 0xFFFF_FFFFu32 && cch.nofit(f, g, t, fw, x_down_arc as int, y_down_arc as int)
  loop 0 ensures
    - (bottom_node == 0xFFFF_FFFFu32 && cch.nofit(f, g, t, fw, x_down_arc as int, y_down_arc as int) && (x_down_arc == x_down_arc_end || y_down_arc == y_down_arc_end)) || (cch.sel(f, g, t, fw, bottom_arc as int, mid_arc as int) && bottom_node == cch.tl(bottom_arc as int))
  loop 0 decreases x_down_arc_end - x_down_arc + y_down_arc_end - y_down_arc
  loop 0 begin
    proof {
      let d = x_down_arc as int; let e = y_down_arc as int;
      assert(cch.at(t, d, e));
      if cch.down_head@[d] < cch.down_head@[e] { cch.lemma_nofit_x(f, g, t, fw, d, e); }
      else if cch.down_head@[d] > cch.down_head@[e] { cch.lemma_nofit_y(f, g, t, fw, d, e); }
      else {
        cch.lemma_at_tri(t, d, e);
        let b = cch.down_to_up@[d] as int; let m = cch.down_to_up@[e] as int;
        assert(f[b] <= INF() && g[b] <= INF() && f[m] <= INF() && g[m] <= INF());
        if cch.fit(f, g, t, fw, b, m) { cch.lemma_sel_at(f, g, t, fw, d, e); } else { cch.lemma_nofit_both(f, g, t, fw, d, e); }
      }
    }
  loop 0 after
    proof {
      if bottom_node == 0xFFFF_FFFFu32 { cch.lemma_leaf(f, g, t, fw, x_down_arc as int, y_down_arc as int); cch.lemma_leaf_init(w, f, g, t, fw); }
      else { cch.lemma_sel_unique(f, g, t, fw, bottom_arc as int, mid_arc as int); assert(cch.fit(f, g, t, fw, bottom_arc as int, mid_arc as int)); }
    }
  exit
    proof {
      if cch.leaf(f, g, t, fw) { cch.app_node_one(w, f, g, p0, (Sg { a: t, fw: fw })); assert(path@ =~= p0.push(cch.order@[cch.sst(Sg { a: t, fw: fw })])); }
      else {
        let (b, m) = cch.pick(f, g, t, fw);
        if fw { cch.app_node_join(w, f, g, p0, path@, cch.unpc(f, g, b, false), cch.unpc(f, g, m, true)); } else { cch.app_node_join(w, f, g, p0, path@, cch.unpc(f, g, m, false), cch.unpc(f, g, b, true)); }
      }
    }

fn CustomizableContractionHierarchyQuery::get_node_path
  ghost s: Seq<u32>
  ghost t: Seq<u32>
  requires
    - old(this).has_run(s, t)
  ensures
    - *final(this) == *old(this)
    - old(this).dist() == INF() ==> r@.len() == 0
    - old(this).dist() != INF() ==> old(this).node_ok(r@)
  hide CustomizableContractionHierarchyQuery::has_run CustomizableContractionHierarchy::good CustomizableContractionHierarchy::bounded graph_ok seq_sorted CustomizableContractionHierarchyQuery::node_ok
  entry
    let ghost c = this.c(); let ghost w = this.w(); let ghost f = this.f(); let ghost g = this.g(); let ghost m = this.meet(); let ghost nil = Seq::<u32>::empty(); let ghost mut p1 = nil; let ghost mut p2 = nil; let ghost mut dn = Seq::<Sg>::empty(); let ghost rt = root(this.pf(), m);
    proof { this.lemma_facts(s, t); c.app_node_none(w, f, g, nil); }
  loop 0 invariant
    - *this == *old(this) && x < c.n() && this.df()[x as int] < INF() && chain(this.df(), this.pf(), up_path@, m) && up_path@.last() == x && up_path@.len() + x <= m + 1
    - path@ == nil
  loop 0 decreases x
  loop 0 begin
    proof { this.lemma_pred_f(s, t, x as int); }
  loop 1 before
    proof { lemma_chain(this.df(), this.pf(), up_path@, m, up_path@.len() - 1); assert(this.ascent(up_path@.last() as int) =~= Seq::<Sg>::empty()); }
  loop 1 invariant
    - *this == *old(this) && i < up_path@.len() && chain(this.df(), this.pf(), up_path@, m)
    - c.app_node(w, f, g, nil, path@, this.ascent(up_path@[i as int] as int))
  loop 1 decreases i
  loop 1 begin
    proof { let v = up_path@[i - 1] as int; let u = up_path@[i as int] as int; assert(v < this.df().len()); this.lemma_pred_f(s, t, v); p1 = path@; let a = c.arcof(u, v); this.lemma_find(s, t, u, v); assert(f[a] <= this.df()[v]); }
  loop 1 end
    proof { let v = up_path@[i - 1] as int; let u = up_path@[i as int] as int; c.app_node_cat(w, f, g, nil, p1, path@, this.ascent(u), this.un(u, v, true)); }
  loop 2 before
    proof { p2 = path@; c.app_node_none(w, f, g, p2); assert(dn + this.descent(m) =~= this.descent(m)); if y != 0xFFFF_FFFFu32 { this.lemma_pred_b(s, t, x as int); } }
  loop 2 invariant
    - *this == *old(this) && x < c.n() && this.db()[x as int] < INF() && y == this.pb()[x as int] && root(this.pb(), x as int) == root(this.pb(), m)
    - c.app_node(w, f, g, p2, path@, dn) && dn + this.descent(x as int) == this.descent(m) && c.app_node(w, f, g, nil, p2, this.ascent(m))
  loop 2 decreases x
  loop 2 begin
    let ghost v2 = x as int; let ghost u2 = y as int;
    proof { this.lemma_pred_b(s, t, v2); p1 = path@; let a = c.arcof(u2, v2); this.lemma_find(s, t, u2, v2); assert(g[a] <= this.db()[v2]); }
  loop 2 end
    proof { let k = this.un(u2, v2, false); c.app_node_cat(w, f, g, p2, p1, path@, dn, k); assert((dn + k) + this.descent(u2) =~= dn + (k + this.descent(u2))); dn = dn + k; }
  loop 2 after
    proof { assert(dn =~= this.descent(m)); c.app_node_cat(w, f, g, nil, p2, path@, this.ascent(m), dn); this.lemma_node_path(s, t, path@); }

fn CustomizableContractionHierarchyQuery::get_used_source
  ghost s: Seq<u32>
  ghost t: Seq<u32>
  requires
    - old(this).has_run(s, t)
  ensures
    - *final(this) == *old(this)
    - old(this).dist() == INF() ==> r == INV()
    - old(this).dist() != INF() ==> r == old(this).c().order@[old(this).from()]
  entry
    let ghost c = this.c(); let ghost m = this.meet();
    proof { this.lemma_facts(s, t); }
  loop 0 invariant
    - *this == *old(this) && x < c.n() && this.df()[x as int] < INF() && root(this.pf(), x as int) == root(this.pf(), m)
  loop 0 decreases x
  loop 0 begin
    proof { this.lemma_pred_f(s, t, x as int); }

fn CustomizableContractionHierarchyQuery::get_used_target
  ghost s: Seq<u32>
  ghost t: Seq<u32>
  requires
    - old(this).has_run(s, t)
  ensures
    - *final(this) == *old(this)
    - old(this).dist() == INF() ==> r == INV()
    - old(this).dist() != INF() ==> r == old(this).c().order@[old(this).to()]
  entry
    let ghost c = this.c(); let ghost m = this.meet();
    proof { this.lemma_facts(s, t); }
  loop 0 invariant
    - *this == *old(this) && x < c.n() && this.db()[x as int] < INF() && root(this.pb(), x as int) == root(this.pb(), m)
  loop 0 decreases x
  loop 0 begin
    proof { this.lemma_pred_b(s, t, x as int); }

fn CustomizableContractionHierarchyQuery::get_distance
  ghost s: Seq<u32>
  ghost t: Seq<u32>
  requires
    - old(this).has_run(s, t)
  ensures
    - *final(this) == *old(this)
    - r == old(this).dist() && exact(&old(this).c(), old(this).w(), s, t, r as int)
  entry
    proof { let r = choose|r: int| #[trigger] best(&this.c(), this.forward_tentative_distance@, this.backward_tentative_distance@, this.shortest_path_meeting_node as int, r);
        lemma_exact(&this.c(), this.w(), this.f(), this.g(), s, t, this.forward_tentative_distance@, this.forward_predecessor_node@, this.backward_tentative_distance@, this.backward_predecessor_node@, this.shortest_path_meeting_node as int, r); }
