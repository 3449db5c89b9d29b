fn compute_strongly_connected_components
  ret q
  requires
    - graph_ok(first_out@, head@)
  ensures
    - q.component_of@.len() == first_out@.len() - 1
    - forall|x: int| 0 <= x < q.component_of@.len() ==> #[trigger] q.component_of@[x] < q.component_count
    - comp_ok(first_out@, head@, q.component_of@)
    - first_out@.len() > 1 ==> q.component_count > 0
  entry
    let ghost mut s: St = start(first_out@, head@);
    proof { lem_begin(first_out@, head@); assert(first_out@[first_out@.len() - 1] <= head@.len()); }
  loop 0 before
    proof {
      assert(dfs_pos@ =~= s.pos); assert(low_link@ =~= s.low); assert(next_out@ =~= s.nxt); assert(in_scc_stack@ =~= s.onst); assert(in_component@ =~= s.done);
      assert(scc_stack@.take(0) =~= s.stk); assert(result.component_of@ =~= s.comp);
    }
  loop 0 invariant
    - s.inv()
    - node_count == first_out@.len() - 1
    - invalid == INVAL()
    - dfs_stack@.len() == node_count
    - s.d.len() == 0 && dfs_stack_top == 0
    - s.n() == node_count
    - holds(s, first_out@, head@, dfs_pos@, low_link@, next_out@, next_preorder_id)
    - holds_stack(s, in_scc_stack@, in_component@, scc_stack@, scc_stack_top, result)
    - r <= node_count
    - forall|i: int| 0 <= i < r ==> #[trigger] s.done[i]
    - s.lens()
  loop 0 decreases node_count - r
  loop 0 begin
    proof { lem_empty(s); }
  loop 1 before
    proof {
      lem_start(s, r as int);
      assert(s.onst[r as int] == s.onst[r as int]);
      s = after_start(s, r as int);
      assert(dfs_stack@.take(1) =~= s.d);
    }
  loop 1 invariant
    - s.inv()
    - s.lens()
    - s.n() == node_count
    - dfs_stack@.len() == node_count
    - dfs_stack_top <= node_count
    - s.d == dfs_stack@.take(dfs_stack_top as int)
    - holds(s, first_out@, head@, dfs_pos@, low_link@, next_out@, next_preorder_id)
    - holds_stack(s, in_scc_stack@, in_component@, scc_stack@, scc_stack_top, result)
    - forall|i: int| 0 <= i < r ==> #[trigger] s.done[i]
    - s.vis(r as int) || (s.d.len() == 1 && s.d[0] == r)
  loop 1 decreases node_count - s.ord.len(), if s.d.len() > 0 && !s.vis(s.d[s.d.len() - 1] as int) { 0int } else { 1int }, dfs_stack_top as int
  loop 1 begin
    let ghost s_0 = s;
    proof { lem_last(s, s.d[s.d.len() - 1] as int); assert(s.d[s.d.len() - 1] == dfs_stack@[dfs_stack_top - 1]); }
  loop 2 before
    proof {
      if !s.vis(x as int) {
        lem_visit(s, x as int);
        s = after_visit(s, x as int);
        assert(s.pos =~= dfs_pos@); assert(s.low =~= low_link@); assert(s.onst =~= in_scc_stack@); assert(s.stk =~= scc_stack@.take(scc_stack_top as int));
      }
      lem_last(s, x as int);
      assert(s.fo[x + 1] <= s.fo[s.n()]);
      assert(s.d.drop_last() =~= dfs_stack@.take(dfs_stack_top as int));
      assert(s.vis(r as int));
    }
    let ghost s_1 = s;
  loop 2 invariant
    - s.inv()
    - s.lens()
    - s.n() == node_count
    - at_last(s, x as int)
    - s.d == s_1.d && s.ord == s_1.ord && s.pos == s_1.pos && s.done == s_1.done
    - x < node_count && x_end == first_out@[x + 1] && x_end <= head@.len()
    - next_out@[x as int] <= x_end
    - holds(s, first_out@, head@, dfs_pos@, low_link@, next_out@, next_preorder_id)
    - holds_stack(s, in_scc_stack@, in_component@, scc_stack@, scc_stack_top, result)
  loop 2 ensures
    - next_out@[x as int] == x_end || dfs_pos@[head@[next_out@[x as int] as int] as int] == INVAL()
  loop 2 decreases x_end - next_out@[x as int]
  loop 2 end
    proof {
      lem_arc(s, x as int);
      s = after_arc(s, x as int);
      assert(s.low =~= low_link@); assert(s.nxt =~= next_out@);
    }
  loop 2 after
    proof { if s.nxt[x as int] != s.fo[x + 1] { lem_push(s, x as int); lem_last(after_push(s, x as int), s.hd[s.nxt[x as int] as int] as int); } }
  loop 3 before
    proof { lem_cnt(s, x as int); lem_stack(s); }
  loop 3 invariant
    - s.spos[x as int] <= scc_stack_top <= s.stk.len()
    - in_scc_stack@.len() == node_count && in_component@.len() == node_count && result.component_of@.len() == node_count
    - result.component_count == s.cnt + 1
    - forall|w: int| 0 <= w < node_count ==> #[trigger] in_scc_stack@[w] == (s.onst[w] && s.spos[w] < scc_stack_top)
    - forall|w: int| 0 <= w < node_count ==> #[trigger] in_component@[w] == (s.done[w] || s.onst[w] && s.spos[w] >= scc_stack_top)
    - forall|w: int| 0 <= w < node_count ==> #[trigger] result.component_of@[w] == if s.onst[w] && s.spos[w] >= scc_stack_top { s.cnt as u32 } else { s.comp[w] }
  loop 3 invariant_except_break
    - s.spos[x as int] < scc_stack_top
  loop 3 ensures
    - scc_stack_top == s.spos[x as int]
  loop 3 decreases scc_stack_top
  loop 3 begin
    proof { assert(s.stk[scc_stack_top - 1] < s.n()); assert(s.stk[scc_stack_top - 1] == scc_stack@[scc_stack_top - 1]); }
  loop 1 end
    proof {
      let l = s.d.len() as int;
      if s.nxt[x as int] == s.fo[x + 1] {
        if s.low[x as int] == s.pos[x as int] {
          lem_root(s, x as int);
          lem_cnt(s, x as int);
          let t = after_root(s, x as int);
          assert(t.onst =~= in_scc_stack@); assert(t.done =~= in_component@); assert(t.comp =~= result.component_of@); assert(t.stk =~= scc_stack@.take(scc_stack_top as int));
          s = t;
        } else {
          lem_leave(s, x as int);
          s = after_leave(s, x as int);
        }
        if s.d.len() > 0 { lem_last(s, s.d[s.d.len() - 1] as int); }
      } else {
        lem_push(s, x as int);
        s = after_push(s, x as int);
        assert(s.d =~= dfs_stack@.take(dfs_stack_top as int));
      }
    }
  loop 1 after
    proof { lem_empty(s); assert(s.done[r as int]); }
  exit
    proof { lem_comps(s); lem_empty(s); if s.n() > 0 { assert(s.comp[0] < s.cnt); } }
fn compute_largest_strongly_connected_component
  ret q
  requires
    - graph_ok(first_out@, head@)
  ensures
    - q@.len() == first_out@.len() - 1
    - q@.len() > 0 ==> exists|x0: int| 0 <= x0 < q@.len() && #[trigger] largest(first_out@, head@, q@, x0)
  loop 0 invariant
    - node_count == first_out@.len() - 1
    - scc.component_of@.len() == node_count && component_size@.len() == scc.component_count
    - x <= node_count
    - forall|c: int| 0 <= c < scc.component_count ==> #[trigger] component_size@[c] == count_eq(scc.component_of@, c, x as int)
  loop 0 decreases node_count - x
  loop 0 begin
    proof { assert(scc.component_of@[x as int] < scc.component_count); lem_count_member(scc.component_of@, scc.component_of@[x as int] as int, x as int); }
  loop 1 invariant
    - i >= 1 && largest_component < scc.component_count && component_size@.len() == scc.component_count
    - forall|c: int| 0 <= c < scc.component_count && c < i ==> #[trigger] component_size@[c] <= component_size@[largest_component as int]
  loop 1 decreases scc.component_count + 1 - i
  loop 2 invariant
    - result@.len() == node_count && node_count == first_out@.len() - 1 && scc.component_of@.len() == node_count && x <= node_count
    - forall|y: int| 0 <= y < x ==> #[trigger] result@[y] == (scc.component_of@[y] == largest_component)
  loop 2 decreases node_count - x
  loop 2 after
    proof {
      let c = scc.component_of@; let n = node_count as int;
      assert(c[0] < scc.component_count);
      lem_count_pos(c, 0, n);
      assert(component_size@[c[0] as int] == count_eq(c, c[0] as int, n));
      assert(component_size@[largest_component as int] == count_eq(c, largest_component as int, n));
      lem_count_member(c, largest_component as int, n);
      let x0 = choose|x0: int| 0 <= x0 < n && #[trigger] c[x0] == largest_component;
      assert forall|y: int| 0 <= y < n implies #[trigger] result@[y] == mutual(first_out@, head@, x0, y) by { assert((c[x0] == c[y]) == mutual(first_out@, head@, x0, y)); }
      lem_size(first_out@, head@, c, x0, n);
      assert forall|y: int| 0 <= y < n implies #[trigger] class_size(first_out@, head@, y, n) <= class_size(first_out@, head@, x0, n) by { lem_size(first_out@, head@, c, y, n); assert(c[y] < scc.component_count); assert(component_size@[c[y] as int] == count_eq(c, c[y] as int, n)); }
      assert(largest(first_out@, head@, result@, x0));
    }
