sharefield CustomizableContractionHierarchyQuery cch CustomizableContractionHierarchy
sharefield CustomizableContractionHierarchyQuery metric CustomizableContractionHierarchyMetric

fn internal_add_source
  requires
    - external_s < rank@.len() && rank@[external_s as int] < elimination_tree_parent@.len()
    - dist_to_s <= INF()
    - side_ok(mk(elimination_tree_parent@, old(source_node)@, old(source_elimination_tree_end)@), old(forward_tentative_distance)@, old(forward_predecessor_node)@, old(in_forward_search_space)@)
    - old(source_node)@.len() + 1 < INV()
  ensures
    - side_ok(mk(elimination_tree_parent@, final(source_node)@, final(source_elimination_tree_end)@), final(forward_tentative_distance)@, final(forward_predecessor_node)@, final(in_forward_search_space)@)
    - final(forward_tentative_distance)@ == old(forward_tentative_distance)@.update(rank@[external_s as int] as int, min2(old(forward_tentative_distance)@[rank@[external_s as int] as int] as int, dist_to_s as int) as u32)
  entry
    let ghost par = elimination_tree_parent@; let ghost sp0 = mk(par, source_node@, source_elimination_tree_end@); let ghost ins0 = in_forward_search_space@; let ghost ends0 = source_elimination_tree_end@; let ghost s0 = rank@[external_s as int] as int; let ghost d0 = forward_tentative_distance@;
  loop 0 before
    proof { assert(anc(par, s as int, s as int)); assert forall|y: int| #[trigger] anc(par, s as int, y) && y < s implies false by { lemma_anc(par, s as int, y); } }
  loop 0 invariant
    - s == s0 && stop_at == 0xFFFF_FFFFu32
  loop 0 invariant_except_break
    - marked(par, s as int, ins0, in_forward_search_space@, x)
    - x == 0xFFFF_FFFFu32 || x < par.len()
    - source_elimination_tree_end@ == ends0
  loop 0 ensures
    - (source_elimination_tree_end@ == ends0 && marked(par, s as int, ins0, in_forward_search_space@, 0xFFFF_FFFFu32)) || (source_elimination_tree_end@ == ends0.push(source_elimination_tree_end@.last()) && source_elimination_tree_end@.len() == ends0.len() + 1 && marked(par, s as int, ins0, in_forward_search_space@, source_elimination_tree_end@.last()) && source_elimination_tree_end@.last() < par.len() && ins0[source_elimination_tree_end@.last() as int])
  loop 0 decreases 0xFFFF_FFFF - x
  loop 0 begin
    let ghost ins1 = in_forward_search_space@;
    proof { assert(ins1[x as int] == ins0[x as int]); if !ins1[x as int] { lemma_mark(par, s as int, ins0, ins1, ins1.update(x as int, true), x); } }
  exit
    proof {
        if d0[s0] == INF() {
            let e = source_elimination_tree_end@.last();
            assert(marked(par, s0, ins0, in_forward_search_space@, e));
            lemma_push(sp0, ins0, in_forward_search_space@, s0 as u32, e);
            let sp = mk(par, source_node@, source_elimination_tree_end@);
            assert(sp.nodes =~= sp0.nodes.push(s0 as u32)); assert(sp.ends =~= sp0.ends.push(e));
            assert(anc(par, s0, s0));
            assert(sp.ins_ok(in_forward_search_space@));
            assert forall|y: int| 0 <= y < d0.len() implies (#[trigger] forward_tentative_distance@[y]) <= INF() && (forward_tentative_distance@[y] < INF() ==> sp.cov(y) && forward_predecessor_node@[y] == INV()) by {
                assert(in_forward_search_space@[y] == (ins0[y] || (anc(par, s0, y) && y < e)));
                assert(d0[y] <= INF());
            }
            assert(forward_tentative_distance@ =~= d0.update(s0, min2(d0[s0] as int, dist_to_s as int) as u32));
        } else {
            assert(d0[s0] <= INF());
            assert(forward_tentative_distance@ =~= d0.update(s0, min2(d0[s0] as int, dist_to_s as int) as u32));
        }
    }

fn reset_source_list
  requires
    - mk(elimination_tree_parent@, old(source_node)@, old(source_elimination_tree_end)@).wf()
    - mk(elimination_tree_parent@, old(source_node)@, old(source_elimination_tree_end)@).ins_ok(old(in_forward_search_space)@)
    - old(forward_tentative_distance)@.len() == elimination_tree_parent@.len() && old(source_node)@.len() < INV()
  ensures
    - final(source_node)@.len() == 0 && final(source_elimination_tree_end)@.len() == 0
    - final(in_forward_search_space)@.len() == elimination_tree_parent@.len() && forall|y: int| 0 <= y < elimination_tree_parent@.len() ==> !(#[trigger] final(in_forward_search_space)@[y])
    - final(forward_tentative_distance)@.len() == elimination_tree_parent@.len()
    - forall|y: int| 0 <= y < elimination_tree_parent@.len() ==> #[trigger] final(forward_tentative_distance)@[y] == (if mk(elimination_tree_parent@, old(source_node)@, old(source_elimination_tree_end)@).cov(y) { INF() } else { old(forward_tentative_distance)@[y] as int })
  entry
    let ghost sp = mk(elimination_tree_parent@, source_node@, source_elimination_tree_end@); let ghost d0 = forward_tentative_distance@; let ghost ins0 = in_forward_search_space@; let ghost n = sp.n();
  loop 0 invariant
    - i <= sp.nodes.len() && source_node@ == sp.nodes && source_elimination_tree_end@ == sp.ends
    - forward_tentative_distance@.len() == n && in_forward_search_space@.len() == n
    - forall|y: int| 0 <= y < n ==> #[trigger] forward_tentative_distance@[y] == (if asc(sp, i as int, 0, y) { INF() } else { d0[y] as int })
    - forall|y: int| 0 <= y < n ==> #[trigger] in_forward_search_space@[y] == (ins0[y] && !asc(sp, i as int, 0, y))
  loop 0 decreases sp.nodes.len() - i
  loop 0 begin
    proof { lemma_start(sp, i as int);
        assert forall|y: int| asc(sp, i as int, sp.nodes[i as int] as int, y) == #[trigger] asc(sp, i as int, 0, y) by { lemma_asc_start(sp, i as int, y); } }
  loop 1 invariant
    - i < sp.nodes.len() && source_node@ == sp.nodes && source_elimination_tree_end@ == sp.ends && stop_at == sp.ends[i as int]
    - x == stop_at || sp.inr(i as int, x as int)
    - stop_at == INV() || stop_at < n
    - forward_tentative_distance@.len() == n && in_forward_search_space@.len() == n
    - forall|y: int| 0 <= y < n ==> #[trigger] forward_tentative_distance@[y] == (if asc(sp, i as int, x as int, y) { INF() } else { d0[y] as int })
    - forall|y: int| 0 <= y < n ==> #[trigger] in_forward_search_space@[y] == (ins0[y] && !asc(sp, i as int, x as int, y))
  loop 1 decreases 0xFFFF_FFFF - x
  loop 1 begin
    let ghost x0 = x as int;
    proof { lemma_own(sp, i as int, x0); lemma_step(sp, i as int, x0); }
  loop 1 end
    proof { assert forall|y: int| #[trigger] asc(sp, i as int, sp.par[x0] as int, y) == (asc(sp, i as int, x0, y) || y == x0) by { lemma_before(sp, i as int, x0, y); } }
  loop 0 end
    proof { assert forall|y: int| asc(sp, i as int, sp.ends[i as int] as int, y) == #[trigger] asc(sp, i + 1, 0, y) by { lemma_asc_start(sp, i as int, y); } }
  exit
    proof { assert forall|y: int| #[trigger] asc(sp, sp.nodes.len() as int, 0, y) == sp.cov(y) by { if sp.cov(y) { assert(sp.inr(sp.own(y), y)); } } }

fn reset_target_distances
  requires
    - mk(elimination_tree_parent@, target_node@, target_elimination_tree_end@).wf()
    - old(forward_tentative_distance)@.len() == elimination_tree_parent@.len() && target_node@.len() < INV()
  ensures
    - final(forward_tentative_distance)@.len() == elimination_tree_parent@.len()
    - forall|y: int| 0 <= y < elimination_tree_parent@.len() ==> #[trigger] final(forward_tentative_distance)@[y] == (if mk(elimination_tree_parent@, target_node@, target_elimination_tree_end@).cov(y) { INF() } else { old(forward_tentative_distance)@[y] as int })
  entry
    let ghost sp = mk(elimination_tree_parent@, target_node@, target_elimination_tree_end@); let ghost d0 = forward_tentative_distance@; let ghost n = sp.n();
    proof { assert forall|y: int| !(#[trigger] sp.proc(sp.nodes.len() - 1, 0, y)) by { if sp.cov(y) { assert(sp.inr(sp.own(y), y)); lemma_own(sp, sp.own(y), y); } } }
  loop 0 invariant
    - gi(i) < sp.nodes.len()
    - forward_tentative_distance@.len() == n
    - forall|y: int| 0 <= y < n ==> #[trigger] forward_tentative_distance@[y] == (if sp.proc(gi(i), 0, y) { INF() } else { d0[y] as int })
  loop 0 decreases gi(i) + 1
  loop 0 begin
    proof { lemma_start(sp, i as int); }
  loop 1 invariant
    - i < sp.nodes.len() && stop_at == sp.ends[i as int]
    - x == stop_at || sp.inr(i as int, x as int)
    - stop_at == INV() || stop_at < n
    - forward_tentative_distance@.len() == n
    - forall|y: int| 0 <= y < n ==> #[trigger] forward_tentative_distance@[y] == (if sp.proc(i as int, x as int, y) { INF() } else { d0[y] as int })
  loop 1 decreases 0xFFFF_FFFF - x
  loop 1 begin
    let ghost x0 = x as int;
    proof { lemma_own(sp, i as int, x0); lemma_step(sp, i as int, x0); }
  loop 1 end
    proof { assert forall|y: int| #[trigger] sp.proc(i as int, sp.par[x0] as int, y) == (sp.proc(i as int, x0, y) || y == x0) by { lemma_next(sp, i as int, x0, y); } }
  exit
    proof { assert forall|y: int| #[trigger] sp.proc(-1, 0, y) == sp.cov(y) by { if sp.cov(y) { assert(sp.inr(sp.own(y), y)); } } }

fn CustomizableContractionHierarchyQuery::CustomizableContractionHierarchyQuery sig=/Metric/ rust=/Query_new/
  ret r
  requires
    - metric.shape() && metric.c().all_wf() && metric.c().bounded(metric.forward@, metric.backward@)
  ensures
    - r.fresh() && r.cch == metric.cch && r.metric.val() == *metric
  exit
    proof { lemma_empty(spf(&this), this.in_forward_search_space@); lemma_empty(spb(&this), this.in_backward_search_space@); }

fn CustomizableContractionHierarchyQuery::reset sig=/\(\)/ rust=/Query_reset0/
  requires
    - old(this).inv()
  ensures
    - final(this).fresh() && final(this).cch == old(this).cch && final(this).metric == old(this).metric
  exit
    proof { lemma_empty(spf(this), this.in_forward_search_space@); lemma_empty(spb(this), this.in_backward_search_space@);
        assert forall|y: int| 0 <= y < this.c().n() implies #[trigger] this.forward_tentative_distance@[y] == INF() by { assert(old(this).forward_tentative_distance@[y] <= INF()); }
        assert forall|y: int| 0 <= y < this.c().n() implies #[trigger] this.backward_tentative_distance@[y] == INF() by { assert(old(this).backward_tentative_distance@[y] <= INF()); } }

fn CustomizableContractionHierarchyQuery::reset sig=/Metric &/ rust=/Query_reset/
  requires
    - old(this).inv()
    - metric.shape() && metric.c().all_wf() && metric.c().bounded(metric.forward@, metric.backward@)
  ensures
    - final(this).fresh() && final(this).cch == metric.cch && final(this).metric.val() == *metric

fn CustomizableContractionHierarchyQuery::add_source
  requires
    - old(this).inv() && (old(this).state == 0 || old(this).state == 4)
    - external_s < old(this).c().n() && dist_to_s <= INF() && old(this).source_node@.len() + 1 < INV()
  ensures
    - final(this).inv() && final(this).cch == old(this).cch && final(this).metric == old(this).metric && final(this).state == old(this).state
    - final(this).forward_tentative_distance@ == old(this).forward_tentative_distance@.update(old(this).c().rank@[external_s as int] as int, min2(old(this).forward_tentative_distance@[old(this).c().rank@[external_s as int] as int] as int, dist_to_s as int) as u32)
    - final(this).backward_tentative_distance == old(this).backward_tentative_distance && spb(final(this)) == spb(old(this))
  entry
    proof { assert(spf(this) == mk(this.c().elimination_tree_parent@, this.source_node@, this.source_elimination_tree_end@)); }

fn CustomizableContractionHierarchyQuery::add_target
  requires
    - old(this).inv() && (old(this).state == 0 || old(this).state == 2)
    - external_t < old(this).c().n() && dist_to_t <= INF() && old(this).target_node@.len() + 1 < INV()
  ensures
    - final(this).inv() && final(this).cch == old(this).cch && final(this).metric == old(this).metric && final(this).state == old(this).state
    - final(this).backward_tentative_distance@ == old(this).backward_tentative_distance@.update(old(this).c().rank@[external_t as int] as int, min2(old(this).backward_tentative_distance@[old(this).c().rank@[external_t as int] as int] as int, dist_to_t as int) as u32)
    - final(this).forward_tentative_distance == old(this).forward_tentative_distance && spf(final(this)) == spf(old(this))
  entry
    proof { assert(spb(this) == mk(this.c().elimination_tree_parent@, this.target_node@, this.target_elimination_tree_end@)); }

fn CustomizableContractionHierarchyQuery::run
  attr verifier::spinoff_prover
  requires
    - old(this).inv() && old(this).state == 0
  ensures
    - final(this).ran(old(this).forward_tentative_distance@, old(this).backward_tentative_distance@)
    - final(this).cch == old(this).cch && final(this).metric == old(this).metric
  hide Sp::wf Sp::cov Sp::own Sp::inr Sp::proc Sp::ins_ok fin best
  entry
    let ghost c = this.c(); let ghost f = this.f(); let ghost g = this.g(); let ghost sf = spf(this); let ghost sb = spb(this);
    let ghost s0 = this.forward_tentative_distance@; let ghost t0 = this.backward_tentative_distance@;
    proof { lemma_sides(this); lemma_search_start(&c, sf, f, s0, this.forward_predecessor_node@, this.in_forward_search_space@); lemma_search_start(&c, sb, g, t0, this.backward_predecessor_node@, this.in_backward_search_space@); }
  loop 0 invariant
    - qframe(this, old(this)) && this.backward_tentative_distance == old(this).backward_tentative_distance && this.backward_predecessor_node == old(this).backward_predecessor_node
    - gi(i) < sf.nodes.len()
    - srch(&c, f, s0, this.forward_tentative_distance@, this.forward_predecessor_node@, sf, gi(i), 0, 0)
  loop 0 decreases gi(i) + 1
  loop 0 begin
    proof { lemma_path_start(&c, sf, f, s0, this.forward_tentative_distance@, this.forward_predecessor_node@, i as int); }
  loop 1 invariant
    - qframe(this, old(this)) && this.backward_tentative_distance == old(this).backward_tentative_distance && this.backward_predecessor_node == old(this).backward_predecessor_node
    - i < sf.nodes.len() && stop_at == sf.ends[i as int]
    - x == stop_at || sf.inr(i as int, x as int)
    - stop_at == INV() || stop_at < c.n()
    - srch(&c, f, s0, this.forward_tentative_distance@, this.forward_predecessor_node@, sf, i as int, x as int, 0)
  loop 1 decreases 0xFFFF_FFFF - x
  loop 1 begin
    proof { lemma_own(sf, i as int, x as int); lemma_node_start(&c, sf, f, s0, this.forward_tentative_distance@, this.forward_predecessor_node@, i as int, x as int); }
  loop 1 after
    proof { lemma_path_end(&c, sf, f, s0, this.forward_tentative_distance@, this.forward_predecessor_node@, i as int); }
  loop 2 invariant
    - qframe(this, old(this)) && this.backward_tentative_distance == old(this).backward_tentative_distance && this.backward_predecessor_node == old(this).backward_predecessor_node
    - sf.inr(i as int, x as int) && x < c.n()
    - c.up_first_out@[x as int] <= xy <= c.up_first_out@[x + 1] <= c.m()
  loop 2 invariant
    - srch(&c, f, s0, this.forward_tentative_distance@, this.forward_predecessor_node@, sf, i as int, x as int, xy as int)
  loop 2 ensures
    - xy == c.up_first_out@[x + 1]
  loop 2 decreases c.m() - xy
  loop 2 begin
    let ghost d1 = this.forward_tentative_distance@; let ghost p1 = this.forward_predecessor_node@;
    proof { lemma_srch(&c, f, s0, d1, p1, sf, i as int, x as int, xy as int); if xy < c.up_first_out@[x + 1] { lemma_range(&c, xy as int, x as int); assert(d1[x as int] <= INF()); } }
  loop 2 end
    proof { lemma_arc_step(&c, sf, f, s0, d1, p1, this.forward_tentative_distance@, this.forward_predecessor_node@, i as int, x as int, xy as int); }
  loop 2 after
    proof { lemma_node_end(&c, sf, f, s0, this.forward_tentative_distance@, this.forward_predecessor_node@, i as int, x as int); }
  loop 3 before
    let ghost df = this.forward_tentative_distance; let ghost pf = this.forward_predecessor_node;
    proof { lemma_fin(&c, sf, f, s0, df@, pf@); lemma_srch(&c, f, s0, df@, pf@, sf, -1, 0, 0); lemma_bestp_start(&c, df@, this.backward_tentative_distance@, sb); }
  loop 3 invariant
    - qframe(this, old(this)) && this.forward_tentative_distance == df && this.forward_predecessor_node == pf
    - gi(i) < sb.nodes.len()
    - srch(&c, g, t0, this.backward_tentative_distance@, this.backward_predecessor_node@, sb, gi(i), 0, 0)
    - bestp(&c, df@, this.backward_tentative_distance@, sb, gi(i), 0, this.shortest_path_meeting_node as int, shortest_path_length as int)
  loop 3 decreases gi(i) + 1
  loop 3 begin
    proof { lemma_start(sb, i as int); lemma_path_start(&c, sb, g, t0, this.backward_tentative_distance@, this.backward_predecessor_node@, i as int);
        lemma_srch(&c, g, t0, this.backward_tentative_distance@, this.backward_predecessor_node@, sb, i as int, 0, 0); lemma_bestp_enter(&c, df@, this.backward_tentative_distance@, sb, i as int, this.shortest_path_meeting_node as int, shortest_path_length as int); }
  loop 4 invariant
    - qframe(this, old(this)) && this.forward_tentative_distance == df && this.forward_predecessor_node == pf
    - i < sb.nodes.len() && stop_at == sb.ends[i as int]
    - x == stop_at || sb.inr(i as int, x as int)
    - stop_at == INV() || stop_at < c.n()
    - srch(&c, g, t0, this.backward_tentative_distance@, this.backward_predecessor_node@, sb, i as int, x as int, 0)
    - bestp(&c, df@, this.backward_tentative_distance@, sb, i as int, x as int, this.shortest_path_meeting_node as int, shortest_path_length as int)
  loop 4 decreases 0xFFFF_FFFF - x
  loop 4 begin
    let ghost x0 = x as int; let ghost d4 = this.backward_tentative_distance@; let ghost m4 = this.shortest_path_meeting_node; let ghost r4 = shortest_path_length as int;
    proof { lemma_bestp(&c, df@, d4, sb, i as int, x0, m4 as int, r4); lemma_own(sb, i as int, x as int); lemma_srch(&c, g, t0, this.backward_tentative_distance@, this.backward_predecessor_node@, sb, i as int, x as int, 0); lemma_node_start(&c, sb, g, t0, this.backward_tentative_distance@, this.backward_predecessor_node@, i as int, x as int); }
  loop 4 end
    proof {
        let e2 = this.backward_tentative_distance@;
        lemma_srch(&c, g, t0, e2, this.backward_predecessor_node@, sb, i as int, x as int, 0);
        assert(df@[x0] <= INF() && e2[x0] <= INF());
        if !sf.cov(x0) { assert(df@[x0] == INF()); }
        lemma_bestp_node(&c, df@, d4, e2, sb, i as int, x0, m4 as int, r4, this.shortest_path_meeting_node as int, shortest_path_length as int);
    }
  loop 4 after
    proof { lemma_start(sb, i as int); lemma_path_end(&c, sb, g, t0, this.backward_tentative_distance@, this.backward_predecessor_node@, i as int);
        lemma_srch(&c, g, t0, this.backward_tentative_distance@, this.backward_predecessor_node@, sb, i - 1, 0, 0); lemma_bestp_leave(&c, df@, this.backward_tentative_distance@, sb, i as int, this.shortest_path_meeting_node as int, shortest_path_length as int); }
  loop 5 invariant
    - qframe(this, old(this)) && this.forward_tentative_distance == df && this.forward_predecessor_node == pf
    - sb.inr(i as int, x as int) && x < c.n() && x == x0
    - c.up_first_out@[x as int] <= xy <= c.up_first_out@[x + 1] <= c.m()
    - srch(&c, g, t0, this.backward_tentative_distance@, this.backward_predecessor_node@, sb, i as int, x as int, xy as int)
    - this.shortest_path_meeting_node == m4 && shortest_path_length == r4
    - forall|y: int| 0 <= y < c.n() && (sb.proc(i as int, x0, y) || y == x0) ==> #[trigger] this.backward_tentative_distance@[y] == d4[y]
  loop 5 ensures
    - xy == c.up_first_out@[x + 1]
  loop 5 decreases c.m() - xy
  loop 5 begin
    let ghost d1 = this.backward_tentative_distance@; let ghost p1 = this.backward_predecessor_node@;
    proof { lemma_srch(&c, g, t0, d1, p1, sb, i as int, x as int, xy as int); if xy < c.up_first_out@[x + 1] { lemma_range(&c, xy as int, x as int); assert(d1[x as int] <= INF()); } }
  loop 5 end
    proof { lemma_arc_step(&c, sb, g, t0, d1, p1, this.backward_tentative_distance@, this.backward_predecessor_node@, i as int, x as int, xy as int);
        assert forall|y: int| 0 <= y < c.n() && (sb.proc(i as int, x0, y) || y == x0) implies #[trigger] this.backward_tentative_distance@[y] == d4[y] by { assert(d1[y] == d4[y]); } }
  loop 5 after
    proof { lemma_srch(&c, g, t0, this.backward_tentative_distance@, this.backward_predecessor_node@, sb, i as int, x as int, xy as int); lemma_node_end(&c, sb, g, t0, this.backward_tentative_distance@, this.backward_predecessor_node@, i as int, x as int); }
  exit
    proof {
        lemma_fin(&c, sb, g, t0, this.backward_tentative_distance@, this.backward_predecessor_node@);
        lemma_srch(&c, g, t0, this.backward_tentative_distance@, this.backward_predecessor_node@, sb, -1, 0, 0);
        lemma_best(&c, this.forward_tentative_distance@, this.backward_tentative_distance@, sb, this.shortest_path_meeting_node as int, shortest_path_length as int);
        assert(spf(this) == sf && spb(this) == sb);
        lemma_srch(&c, f, s0, this.forward_tentative_distance@, this.forward_predecessor_node@, sf, -1, 0, 0);
        lemma_ran(this, old(this), s0, t0, shortest_path_length as int);
    }

fn CustomizableContractionHierarchyQuery::get_distance
  ghost s: Seq<u32>
  ghost t: Seq<u32>
  requires
    - old(this).ran(s, t)
    - old(this).c().good(old(this).w(), old(this).f(), old(this).g())
  ensures
    - *final(this) == *old(this)
    - exact(&old(this).c(), old(this).w(), s, t, r as int)
  entry
    proof { let r = choose|r: int| #[trigger] best(&this.c(), this.forward_tentative_distance@, this.backward_tentative_distance@, this.shortest_path_meeting_node as int, r);
        lemma_exact(&this.c(), this.w(), this.f(), this.g(), s, t, this.forward_tentative_distance@, this.forward_predecessor_node@, this.backward_tentative_distance@, this.backward_predecessor_node@, this.shortest_path_meeting_node as int, r); }

fn CustomizableContractionHierarchyQuery::get_used_source
  ghost s: Seq<u32>
  ghost t: Seq<u32>
  requires
    - old(this).ran(s, t)
    - old(this).c().good(old(this).w(), old(this).f(), old(this).g())
  ensures
    - *final(this) == *old(this)
    - r == 0xFFFF_FFFFu32 ==> exact(&old(this).c(), old(this).w(), s, t, INF()) || used_source(&old(this).c(), old(this).w(), s, t, r)
    - r != 0xFFFF_FFFFu32 ==> used_source(&old(this).c(), old(this).w(), s, t, r)
  entry
    let ghost c = this.c(); let ghost w = this.w(); let ghost f = this.f(); let ghost g = this.g(); let ghost d = this.forward_tentative_distance@; let ghost e = this.backward_tentative_distance@; let ghost mid = this.shortest_path_meeting_node as int;
    let ghost len = choose|r: int| #[trigger] best(&c, d, e, mid, r);
    proof { lemma_exact(&c, w, f, g, s, t, d, this.forward_predecessor_node@, e, this.backward_predecessor_node@, mid, len); }
  loop 0 before
    let ghost mut p = Seq::<int>::empty();
    proof { assert(wlen(w, p) == 0); }
  loop 0 invariant
    - *this == *old(this) && x < c.n() && d[x as int] < INF() && c.walk(p, x as int, mid) && d[x as int] + wlen(w, p) == d[mid]
  loop 0 decreases x
  loop 0 begin
    proof { let a = open_wq(&c, f, s, d, this.forward_predecessor_node@, x as int);
        let q = lemma_arc_walk(&c, w, f, g, a, true);
        lemma_cat(&c, w, q, p, c.tl(a), x as int, mid);
        p = q + p; }
  loop 0 after
    proof {
        let a = open_wq(&c, f, s, d, this.forward_predecessor_node@, x as int);
        let (y, q) = lemma_bwd_walk(&c, w, f, g, t, e, this.backward_predecessor_node@, mid);
        lemma_cat(&c, w, p, q, x as int, mid, y);
        assert(c.walk(p + q, x as int, y));
    }

fn CustomizableContractionHierarchyQuery::get_used_target
  ghost s: Seq<u32>
  ghost t: Seq<u32>
  requires
    - old(this).ran(s, t)
    - old(this).c().good(old(this).w(), old(this).f(), old(this).g())
  ensures
    - *final(this) == *old(this)
    - r == 0xFFFF_FFFFu32 ==> exact(&old(this).c(), old(this).w(), s, t, INF()) || used_target(&old(this).c(), old(this).w(), s, t, r)
    - r != 0xFFFF_FFFFu32 ==> used_target(&old(this).c(), old(this).w(), s, t, r)
  entry
    let ghost c = this.c(); let ghost w = this.w(); let ghost f = this.f(); let ghost g = this.g(); let ghost d = this.forward_tentative_distance@; let ghost e = this.backward_tentative_distance@; let ghost mid = this.shortest_path_meeting_node as int;
    let ghost len = choose|r: int| #[trigger] best(&c, d, e, mid, r);
    proof { lemma_exact(&c, w, f, g, s, t, d, this.forward_predecessor_node@, e, this.backward_predecessor_node@, mid, len); }
  loop 0 before
    let ghost mut p = Seq::<int>::empty();
    proof { assert(wlen(w, p) == 0); }
  loop 0 invariant
    - *this == *old(this) && x < c.n() && e[x as int] < INF() && c.walk(p, mid, x as int) && e[x as int] + wlen(w, p) == e[mid]
  loop 0 decreases x
  loop 0 begin
    proof { let a = open_wq(&c, g, t, e, this.backward_predecessor_node@, x as int);
        let q = lemma_arc_walk(&c, w, f, g, a, false);
        lemma_cat(&c, w, p, q, mid, x as int, c.tl(a));
        p = p + q; }
  loop 0 after
    proof {
        let a = open_wq(&c, g, t, e, this.backward_predecessor_node@, x as int);
        let (y, q) = lemma_fwd_walk(&c, w, f, g, s, d, this.forward_predecessor_node@, mid);
        lemma_cat(&c, w, q, p, y, mid, x as int);
        assert(c.walk(q + p, y, x as int));
    }

fn internal_pin_targets
  requires
    - old(target_node)@.len() == 0 && old(target_elimination_tree_end)@.len() == 0
    - tree_ok(elimination_tree_parent@) && old(in_backward_search_space)@.len() == elimination_tree_parent@.len()
    - forall|y: int| 0 <= y < old(in_backward_search_space)@.len() ==> !(#[trigger] old(in_backward_search_space)@[y])
    - target_list@.len() < INV() && forall|i: int| 0 <= i < target_list@.len() ==> (#[trigger] target_list@[i]) < rank@.len()
    - forall|i: int| 0 <= i < rank@.len() ==> (#[trigger] rank@[i]) < elimination_tree_parent@.len()
  ensures
    - mk(elimination_tree_parent@, final(target_node)@, final(target_elimination_tree_end)@).wf()
    - mk(elimination_tree_parent@, final(target_node)@, final(target_elimination_tree_end)@).ins_ok(final(in_backward_search_space)@)
    - final(target_node)@.len() == target_list@.len()
    - forall|i: int| 0 <= i < target_list@.len() ==> #[trigger] final(target_node)@[i] == rank@[target_list@[i] as int]
  entry
    let ghost par = elimination_tree_parent@;
    proof { lemma_empty(mk(par, target_node@, target_elimination_tree_end@), in_backward_search_space@); }
  loop 0 before
    proof { assert(target_node@.subrange(0, 0) =~= old(target_node)@); assert(target_elimination_tree_end@.subrange(0, 0) =~= old(target_elimination_tree_end)@); }
  loop 0 invariant
    - i <= target_list@.len() && target_node@.len() == target_list@.len() && target_elimination_tree_end@.len() == target_list@.len()
    - mk(par, target_node@.subrange(0, i as int), target_elimination_tree_end@.subrange(0, i as int)).wf()
    - mk(par, target_node@.subrange(0, i as int), target_elimination_tree_end@.subrange(0, i as int)).ins_ok(in_backward_search_space@)
    - forall|j: int| 0 <= j < i ==> #[trigger] target_node@[j] == rank@[target_list@[j] as int]
  loop 0 decreases target_list@.len() - i
  loop 0 begin
    let ghost nodes0 = target_node@; let ghost ends0 = target_elimination_tree_end@; let ghost ins0 = in_backward_search_space@; let ghost s = rank@[target_list@[i as int] as int]; let ghost sp = mk(par, nodes0.subrange(0, i as int), ends0.subrange(0, i as int));
    proof { assert(target_list@[i as int] < rank@.len()); assert(anc(par, s as int, s as int)); assert forall|y: int| #[trigger] anc(par, s as int, y) && y < s implies false by { lemma_anc(par, s as int, y); } }
  loop 1 invariant
    - stop_at == 0xFFFF_FFFFu32 && i < target_list@.len() && target_node@ == nodes0.update(i as int, s)
    - target_elimination_tree_end@ == ends0.update(i as int, target_elimination_tree_end@[i as int])
  loop 1 invariant_except_break
    - marked(par, s as int, ins0, in_backward_search_space@, x)
    - x == 0xFFFF_FFFFu32 || x < par.len()
    - target_elimination_tree_end@[i as int] == 0xFFFF_FFFFu32
  loop 1 ensures
    - marked(par, s as int, ins0, in_backward_search_space@, target_elimination_tree_end@[i as int])
    - target_elimination_tree_end@[i as int] == INV() || (target_elimination_tree_end@[i as int] < par.len() && ins0[target_elimination_tree_end@[i as int] as int])
  loop 1 decreases 0xFFFF_FFFF - x
  loop 1 begin
    let ghost ins1 = in_backward_search_space@;
    proof { assert(ins1[x as int] == ins0[x as int]); if !ins1[x as int] { lemma_mark(par, s as int, ins0, ins1, ins1.update(x as int, true), x); } }
  loop 0 end
    proof {
        lemma_push(sp, ins0, in_backward_search_space@, s, target_elimination_tree_end@[i as int]);
        assert(target_node@.subrange(0, i + 1) =~= sp.nodes.push(s)); assert(target_elimination_tree_end@.subrange(0, i + 1) =~= sp.ends.push(target_elimination_tree_end@[i as int]));
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] target_node@[j] == rank@[target_list@[j] as int] by { if j < i { assert(nodes0[j] == rank@[target_list@[j] as int]); } }
    }
  exit
    proof { assert(target_node@.subrange(0, target_node@.len() as int) =~= target_node@); assert(target_elimination_tree_end@.subrange(0, target_node@.len() as int) =~= target_elimination_tree_end@); }

fn internal_run_to_pinned_targets
  attr verifier::spinoff_prover
  requires
    - cch.all_wf() && cch_side(cch, mk(cch.elimination_tree_parent@, source_node@, source_elimination_tree_end@), forward_weight@) && cch_side(cch, mk(cch.elimination_tree_parent@, target_node@, target_elimination_tree_end@), backward_weight@)
    - old(forward_tentative_distance)@.len() == cch.n() && old(backward_tentative_distance)@.len() == cch.n()
    - on(mk(cch.elimination_tree_parent@, source_node@, source_elimination_tree_end@), old(forward_tentative_distance)@)
    - all_inf(old(backward_tentative_distance)@)
  ensures
    - pin_ran(cch, forward_weight@, backward_weight@, old(forward_tentative_distance)@, mk(cch.elimination_tree_parent@, target_node@, target_elimination_tree_end@), final(forward_tentative_distance)@)
    - final(forward_tentative_distance)@.len() == cch.n() && final(backward_tentative_distance)@.len() == cch.n()
    - on2(mk(cch.elimination_tree_parent@, source_node@, source_elimination_tree_end@), mk(cch.elimination_tree_parent@, target_node@, target_elimination_tree_end@), final(forward_tentative_distance)@)
    - all_inf(final(backward_tentative_distance)@)
  hide Sp::wf Sp::cov Sp::own Sp::inr Sp::proc fin stk dwn dfin pin_ran on2
  entry
    let ghost c = *cch; let ghost f = forward_weight@; let ghost g = backward_weight@; let ghost sf = mk(cch.elimination_tree_parent@, source_node@, source_elimination_tree_end@); let ghost sb = mk(cch.elimination_tree_parent@, target_node@, target_elimination_tree_end@);
    let ghost s0 = forward_tentative_distance@; let ghost mut df = s0; let ghost mut st = s0; let ghost mut k = 0int; let ghost mut pred = Seq::new(cch.n() as nat, |y: int| 0xFFFF_FFFFu32);
    proof { lemma_sp(&c, sf, f); lemma_sp(&c, sb, g); lemma_search_begin(&c, sf, f, s0, pred); }
  loop 0 invariant
    - backward_tentative_distance == old(backward_tentative_distance)
    - gi(i) < sf.nodes.len()
    - srch(&c, f, s0, forward_tentative_distance@, pred, sf, gi(i), 0, 0)
  loop 0 decreases gi(i) + 1
  loop 0 begin
    proof { lemma_path_start(&c, sf, f, s0, forward_tentative_distance@, pred, i as int); }
  loop 1 invariant
    - i < sf.nodes.len() && stop_at == sf.ends[i as int]
    - x == stop_at || sf.inr(i as int, x as int)
    - stop_at == INV() || stop_at < c.n()
    - srch(&c, f, s0, forward_tentative_distance@, pred, sf, i as int, x as int, 0)
  loop 1 decreases 0xFFFF_FFFF - x
  loop 1 begin
    proof { lemma_own(sf, i as int, x as int); lemma_node_start(&c, sf, f, s0, forward_tentative_distance@, pred, i as int, x as int); }
  loop 1 after
    proof { lemma_path_end(&c, sf, f, s0, forward_tentative_distance@, pred, i as int); }
  loop 2 invariant
    - sf.inr(i as int, x as int) && x < c.n()
    - c.up_first_out@[x as int] <= xy <= c.up_first_out@[x + 1] <= c.m()
    - srch(&c, f, s0, forward_tentative_distance@, pred, sf, i as int, x as int, xy as int)
  loop 2 ensures
    - xy == c.up_first_out@[x + 1]
  loop 2 decreases c.m() - xy
  loop 2 begin
    let ghost d1 = forward_tentative_distance@; let ghost p1 = pred;
    proof { lemma_srch(&c, f, s0, d1, p1, sf, i as int, x as int, xy as int); if xy < c.up_first_out@[x + 1] { lemma_range(&c, xy as int, x as int); assert(d1[x as int] <= INF()); } }
  loop 2 end
    proof { if d1[x as int] + f[xy as int] < d1[c.hd(xy as int)] { pred = pred.update(c.hd(xy as int), x); }
        lemma_arc_step(&c, sf, f, s0, d1, p1, forward_tentative_distance@, pred, i as int, x as int, xy as int); }
  loop 2 after
    proof { lemma_node_end(&c, sf, f, s0, forward_tentative_distance@, pred, i as int, x as int); }
  loop 3 before
    proof { df = forward_tentative_distance@; lemma_fin(&c, sf, f, s0, df, pred); lemma_srch(&c, f, s0, df, pred, sf, -1, 0, 0);
        lemma_stk_start(sb, backward_tentative_distance@); }
  loop 3 invariant
    - gi(i) < sb.nodes.len() && backward_tentative_distance@.len() == c.n()
    - stk(sb, backward_tentative_distance@, stack_end as int, gi(i), 0)
    - forall|y: int| stack_end <= y < c.n() ==> #[trigger] backward_tentative_distance@[y] == INF()
  loop 3 decreases gi(i) + 1
  loop 3 begin
    proof { lemma_stk_enter(sb, backward_tentative_distance@, stack_end as int, i as int); }
  loop 4 invariant
    - i < sb.nodes.len() && stop_at == sb.ends[i as int]
    - x == stop_at || sb.inr(i as int, x as int)
    - stop_at == INV() || stop_at < c.n()
    - backward_tentative_distance@.len() == c.n()
    - stk(sb, backward_tentative_distance@, stack_end as int, i as int, x as int)
    - forall|y: int| stack_end <= y < c.n() ==> #[trigger] backward_tentative_distance@[y] == INF()
  loop 4 decreases 0xFFFF_FFFF - x
  loop 4 begin
    proof { lemma_own(sb, i as int, x as int); lemma_step(sb, i as int, x as int); lemma_room(sb, backward_tentative_distance@, stack_end as int, i as int, x as int); lemma_stk_push(sb, backward_tentative_distance@, stack_end as int, i as int, x as int); }
  loop 4 after
    proof { lemma_stk_leave(sb, backward_tentative_distance@, stack_end as int, i as int); }
  loop 5 before
    proof { st = backward_tentative_distance@; k = stack_end as int; lemma_stk(sb, st, k, -1, 0); lemma_dwn_start(&c, g, st, k, df); }
  loop 5 invariant
    - stack_end <= k && backward_tentative_distance@.len() == c.n()
    - forall|j: int| 0 <= j < stack_end ==> #[trigger] backward_tentative_distance@[j] == st[j]
    - forall|j: int| stack_end <= j < c.n() ==> #[trigger] backward_tentative_distance@[j] == INF()
    - dwn(&c, g, st, k, df, forward_tentative_distance@, stack_end as int, -1, 0)
  loop 5 decreases stack_end
  loop 5 begin
    proof { lemma_pop(&c, sb, g, st, k, df, forward_tentative_distance@, stack_end as int); }
  loop 6 invariant
    - stack_end < k && x == st[stack_end as int] && x < c.n() && sb.cov(x as int)
    - c.up_first_out@[x as int] <= xy <= c.up_first_out@[x + 1] <= c.m()
    - dwn(&c, g, st, k, df, forward_tentative_distance@, stack_end + 1, x as int, xy as int)
  loop 6 ensures
    - xy == c.up_first_out@[x + 1]
  loop 6 decreases c.m() - xy
  loop 6 begin
    let ghost d1 = forward_tentative_distance@;
    proof { lemma_dwn(&c, g, st, k, df, d1, stack_end + 1, x as int, xy as int); if xy < c.up_first_out@[x + 1] { lemma_range(&c, xy as int, x as int); assert(d1[c.hd(xy as int)] <= df[c.hd(xy as int)] && df[c.hd(xy as int)] <= INF()); } }
  loop 6 end
    proof { lemma_dwn_step(&c, sb, g, st, k, df, d1, forward_tentative_distance@, stack_end + 1, x as int, xy as int); }
  loop 6 after
    proof { lemma_dwn_end(&c, sb, g, st, k, df, forward_tentative_distance@, stack_end + 1, x as int); }
  exit
    proof {
        lemma_dwn_fin(&c, sb, g, st, k, df, forward_tentative_distance@);
        lemma_dwn(&c, g, st, k, df, forward_tentative_distance@, 0, -1, 0);
        lemma_pin_ran(&c, f, g, s0, sf, sb, df, pred, forward_tentative_distance@);
    }

fn CustomizableContractionHierarchyQuery::pin_targets
  requires
    - old(this).inv() && old(this).state == 0 && none(spb(old(this)))
    - target_list@.len() < INV() && forall|i: int| 0 <= i < target_list@.len() ==> (#[trigger] target_list@[i]) < old(this).c().n()
  ensures
    - final(this).inv() && final(this).state == 4 && final(this).cch == old(this).cch && final(this).metric == old(this).metric
    - final(this).forward_tentative_distance == old(this).forward_tentative_distance && spf(final(this)) == spf(old(this))
    - final(this).pinned_t(target_list@)
  entry
    proof { lemma_uncovered(spb(this), this.in_backward_search_space@, this.backward_tentative_distance@); }

fn CustomizableContractionHierarchyQuery::pin_sources
  requires
    - old(this).inv() && old(this).state == 0 && none(spf(old(this)))
    - source_list@.len() < INV() && forall|i: int| 0 <= i < source_list@.len() ==> (#[trigger] source_list@[i]) < old(this).c().n()
  ensures
    - final(this).inv() && final(this).state == 2 && final(this).cch == old(this).cch && final(this).metric == old(this).metric
    - final(this).backward_tentative_distance == old(this).backward_tentative_distance && spb(final(this)) == spb(old(this))
    - final(this).pinned_s(source_list@)
  entry
    proof { lemma_uncovered(spf(this), this.in_forward_search_space@, this.forward_tentative_distance@); }

fn CustomizableContractionHierarchyQuery::reset_source
  requires
    - old(this).inv() && (old(this).state == 4 || old(this).state == 5)
  ensures
    - final(this).inv() && final(this).state == 4 && final(this).cch == old(this).cch && final(this).metric == old(this).metric
    - all_inf(final(this).forward_tentative_distance@) && none(spf(final(this))) && spb(final(this)) == spb(old(this))
  exit
    proof { lemma_empty(spf(this), this.in_forward_search_space@);
        assert forall|y: int| 0 <= y < this.c().n() implies #[trigger] this.forward_tentative_distance@[y] == INF() by { assert(old(this).forward_tentative_distance@[y] <= INF()); } }

fn CustomizableContractionHierarchyQuery::reset_target
  requires
    - old(this).inv() && (old(this).state == 2 || old(this).state == 3)
  ensures
    - final(this).inv() && final(this).state == 2 && final(this).cch == old(this).cch && final(this).metric == old(this).metric
    - all_inf(final(this).backward_tentative_distance@) && none(spb(final(this))) && spf(final(this)) == spf(old(this))
  exit
    proof { lemma_empty(spb(this), this.in_backward_search_space@);
        assert forall|y: int| 0 <= y < this.c().n() implies #[trigger] this.backward_tentative_distance@[y] == INF() by { assert(old(this).backward_tentative_distance@[y] <= INF()); } }

fn CustomizableContractionHierarchyQuery::run_to_pinned_targets
  requires
    - old(this).inv() && old(this).state == 4
  ensures
    - final(this).inv() && final(this).state == 5 && final(this).cch == old(this).cch && final(this).metric == old(this).metric && spb(final(this)) == spb(old(this)) && spf(final(this)) == spf(old(this))
    - pin_ran(&final(this).c(), final(this).f(), final(this).g(), old(this).forward_tentative_distance@, spb(final(this)), final(this).forward_tentative_distance@)

fn CustomizableContractionHierarchyQuery::run_to_pinned_sources
  requires
    - old(this).inv() && old(this).state == 2
  ensures
    - final(this).inv() && final(this).state == 3 && final(this).cch == old(this).cch && final(this).metric == old(this).metric && spb(final(this)) == spb(old(this)) && spf(final(this)) == spf(old(this))
    - pin_ran(&final(this).c(), final(this).g(), final(this).f(), old(this).backward_tentative_distance@, spf(final(this)), final(this).backward_tentative_distance@)

fn CustomizableContractionHierarchyQuery::get_distances_to_targets sig=/unsigned int \*/ rust=/get_distances_to_targets_p/
  pointers dist into buf
  ghost s: Seq<u32>
  ghost list: Seq<u32>
  requires
    - old(this).inv() && old(this).state == 5 && old(this).pinned_t(list) && old(this).c().good(old(this).w(), old(this).f(), old(this).g())
    - pin_ran(&old(this).c(), old(this).f(), old(this).g(), s, spb(old(this)), old(this).forward_tentative_distance@)
    - dist + list.len() <= old(buf)@.len() <= 0xFFFF_FFFF_FFFF_FFFF
  ensures
    - *final(this) == *old(this)
    - final(buf)@.len() == old(buf)@.len()
    - forall|k: int| dist <= k < dist + list.len() ==> exact_to(&old(this).c(), old(this).w(), s, old(this).c().rank@[list[k - dist] as int] as int, #[trigger] final(buf)@[k] as int)
  loop 0 invariant
    - *this == *old(this) && i <= list.len() && buf@.len() == old(buf)@.len() && dist == dist_0
    - forall|k: int| dist <= k < dist + i ==> exact_to(&this.c(), this.w(), s, this.c().rank@[list[k - dist] as int] as int, #[trigger] buf@[k] as int)
  loop 0 decreases list.len() - i
  loop 0 begin
    let ghost b0 = buf@;
    proof { lemma_pinned_cov(spb(this), i as int); lemma_exact_to(&this.c(), this.w(), this.f(), this.g(), s, spb(this), this.forward_tentative_distance@, this.target_node@[i as int] as int); }
  loop 0 end
    proof { assert forall|k: int| dist <= k < dist + i + 1 implies exact_to(&this.c(), this.w(), s, this.c().rank@[list[k - dist] as int] as int, #[trigger] buf@[k] as int) by { if k < dist + i { assert(buf@[k] == b0[k]); assert(exact_to(&this.c(), this.w(), s, this.c().rank@[list[k - dist] as int] as int, b0[k] as int)); } else { assert(k - dist == i); assert(buf@[k] == this.forward_tentative_distance@[this.target_node@[i as int] as int]); assert(this.target_node@[i as int] == this.c().rank@[list[i as int] as int]); } } }

fn CustomizableContractionHierarchyQuery::get_distances_to_sources sig=/unsigned int \*/ rust=/get_distances_to_sources_p/
  pointers dist into buf
  ghost s: Seq<u32>
  ghost list: Seq<u32>
  requires
    - old(this).inv() && old(this).state == 3 && old(this).pinned_s(list) && old(this).c().good(old(this).w(), old(this).f(), old(this).g())
    - pin_ran(&old(this).c(), old(this).g(), old(this).f(), s, spf(old(this)), old(this).backward_tentative_distance@)
    - dist + list.len() <= old(buf)@.len() <= 0xFFFF_FFFF_FFFF_FFFF
  ensures
    - *final(this) == *old(this)
    - final(buf)@.len() == old(buf)@.len()
    - forall|k: int| dist <= k < dist + list.len() ==> exact_from(&old(this).c(), old(this).w(), s, old(this).c().rank@[list[k - dist] as int] as int, #[trigger] final(buf)@[k] as int)
  loop 0 invariant
    - *this == *old(this) && i <= list.len() && buf@.len() == old(buf)@.len() && dist == dist_0
    - forall|k: int| dist <= k < dist + i ==> exact_from(&this.c(), this.w(), s, this.c().rank@[list[k - dist] as int] as int, #[trigger] buf@[k] as int)
  loop 0 decreases list.len() - i
  loop 0 begin
    let ghost b0 = buf@;
    proof { lemma_pinned_cov(spf(this), i as int); lemma_exact_from(&this.c(), this.w(), this.f(), this.g(), s, spf(this), this.backward_tentative_distance@, this.source_node@[i as int] as int); }
  loop 0 end
    proof { assert forall|k: int| dist <= k < dist + i + 1 implies exact_from(&this.c(), this.w(), s, this.c().rank@[list[k - dist] as int] as int, #[trigger] buf@[k] as int) by { if k < dist + i { assert(buf@[k] == b0[k]); assert(exact_from(&this.c(), this.w(), s, this.c().rank@[list[k - dist] as int] as int, b0[k] as int)); } else { assert(k - dist == i); assert(buf@[k] == this.backward_tentative_distance@[this.source_node@[i as int] as int]); assert(this.source_node@[i as int] == this.c().rank@[list[i as int] as int]); } } }

fn CustomizableContractionHierarchyQuery::get_distances_to_targets sig=/\(\)/ rust=/get_distances_to_targets_v/
  ghost s: Seq<u32>
  ghost list: Seq<u32>
  requires
    - old(this).inv() && old(this).state == 5 && old(this).pinned_t(list) && old(this).c().good(old(this).w(), old(this).f(), old(this).g())
    - pin_ran(&old(this).c(), old(this).f(), old(this).g(), s, spb(old(this)), old(this).forward_tentative_distance@)
  ensures
    - *final(this) == *old(this)
    - r@.len() == list.len()
    - forall|i: int| 0 <= i < list.len() ==> exact_to(&old(this).c(), old(this).w(), s, old(this).c().rank@[list[i] as int] as int, #[trigger] r@[i] as int)
  exit
    proof { assert forall|i: int| 0 <= i < list.len() implies exact_to(&old(this).c(), old(this).w(), s, old(this).c().rank@[list[i] as int] as int, #[trigger] r@[i] as int) by { assert(list[i - 0] == list[i]); } }

fn CustomizableContractionHierarchyQuery::get_distances_to_sources sig=/\(\)/ rust=/get_distances_to_sources_v/
  ghost s: Seq<u32>
  ghost list: Seq<u32>
  requires
    - old(this).inv() && old(this).state == 3 && old(this).pinned_s(list) && old(this).c().good(old(this).w(), old(this).f(), old(this).g())
    - pin_ran(&old(this).c(), old(this).g(), old(this).f(), s, spf(old(this)), old(this).backward_tentative_distance@)
  ensures
    - *final(this) == *old(this)
    - r@.len() == list.len()
    - forall|i: int| 0 <= i < list.len() ==> exact_from(&old(this).c(), old(this).w(), s, old(this).c().rank@[list[i] as int] as int, #[trigger] r@[i] as int)
  exit
    proof { assert forall|i: int| 0 <= i < list.len() implies exact_from(&old(this).c(), old(this).w(), s, old(this).c().rank@[list[i] as int] as int, #[trigger] r@[i] as int) by { assert(list[i - 0] == list[i]); } }
