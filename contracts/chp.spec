sharefield ContractionHierarchyQuery ch ContractionHierarchy

fn unpack_forward_arc in=/get_arc_path/ rust=/unpack_forward_arc_arc/
  ghost gv: int
  ghost gi: In
  requires
    - hwf(ch.h(), ch.n()) && ch.stand(gi)
    - ch.h().f.arc(gv, arc as int)
  ensures
    - final(path)@ == old(path)@ + arcs(ch.unp(&ch.forward, gv, arc as int))
  decreases gv
  callghost unpack_backward_arc gv /./ ch.via(&ch.forward, gv, arc as int)
  callghost unpack_forward_arc gv /./ ch.via(&ch.forward, gv, arc as int)
  entry
    proof { ch.stand_size(gi); ch.stand_fwd(gi, gv, arc as int); assert(ch.h().f.fo[gv + 1] <= ch.h().f.fo[ch.n()]);
      if !ch.forward.orig(arc as int) { let z = ch.via(&ch.forward, gv, arc as int); assert(ch.h().f.fo[z + 1] <= ch.h().f.fo[ch.n()]); assert(ch.h().b.fo[z + 1] <= ch.h().b.fo[ch.n()]); } }
  exit
    proof {
      let q = ch.unp(&ch.forward, gv, arc as int);
      if ch.forward.orig(arc as int) { assert(arcs(q) =~= seq![q[0].a]); }
      else { let z = ch.via(&ch.forward, gv, arc as int); let q1 = ch.unp(&ch.backward, z, ch.forward.fst(arc as int)); let q2 = ch.unp(&ch.forward, z, ch.forward.snd(arc as int)); assert(arcs(q1 + q2) =~= arcs(q1) + arcs(q2)); }
      assert(path@ =~= old(path)@ + arcs(q));
    }

fn unpack_backward_arc in=/get_arc_path/ rust=/unpack_backward_arc_arc/
  ghost gv: int
  ghost gi: In
  requires
    - hwf(ch.h(), ch.n()) && ch.stand(gi)
    - ch.h().b.arc(gv, arc as int)
  ensures
    - final(path)@ == old(path)@ + arcs(ch.unp(&ch.backward, gv, arc as int))
  decreases gv
  callghost unpack_backward_arc gv /./ ch.via(&ch.backward, gv, arc as int)
  callghost unpack_forward_arc gv /./ ch.via(&ch.backward, gv, arc as int)
  entry
    proof { ch.stand_size(gi); ch.stand_bwd(gi, gv, arc as int); assert(ch.h().b.fo[gv + 1] <= ch.h().b.fo[ch.n()]);
      if !ch.backward.orig(arc as int) { let z = ch.via(&ch.backward, gv, arc as int); assert(ch.h().f.fo[z + 1] <= ch.h().f.fo[ch.n()]); assert(ch.h().b.fo[z + 1] <= ch.h().b.fo[ch.n()]); } }
  exit
    proof {
      let q = ch.unp(&ch.backward, gv, arc as int);
      if ch.backward.orig(arc as int) { assert(arcs(q) =~= seq![q[0].a]); }
      else { let z = ch.via(&ch.backward, gv, arc as int); let q1 = ch.unp(&ch.backward, z, ch.backward.fst(arc as int)); let q2 = ch.unp(&ch.forward, z, ch.backward.snd(arc as int)); assert(arcs(q1 + q2) =~= arcs(q1) + arcs(q2)); }
      assert(path@ =~= old(path)@ + arcs(q));
    }

fn ContractionHierarchyQuery::get_arc_path
  ghost src: Map<int, int>
  ghost tgt: Map<int, int>
  ghost gi: In
  requires
    - old(this).ran(src, tgt) && old(this).c().stand(gi)
  ensures
    - *final(this) == *old(this)
    - old(this).dist() == INF() ==> r@.len() == 0
    - old(this).dist() != INF() ==> r@ == arcs(old(this).path()) && old(this).path_ok(gi, src, tgt, r@)
  callghost unpack_forward_arc gv /./ ns[i as int]
  callghost unpack_backward_arc gv /./ this.b().pn[x as int] as int
  entry
    let ghost h = this.h(); let ghost n = this.n(); let ghost m = this.meet(); let ghost mut ns = seq![m]; let ghost mut pre = Seq::<u32>::empty(); let ghost mut rt = 0int;
    proof { lemma_parts(&this.f(), h, n, src, true, -1); lemma_parts(&this.b(), rev(h), n, tgt, true, -1); if m != INV() { this.lemma_path(gi, src, tgt); assert(this.f().small() && this.b().small()); } }
  loop 0 invariant
    - *this == *old(this)
    - this.f().pu(x as int) && chain(this.f(), ns, up_path@, m) && ns.last() == x && up_path@.len() + x <= m
    - path@.len() == 0
  loop 0 decreases x
  loop 0 begin
    proof { assert(this.f().wit(h.f, src, x as int)) by { reveal(S::inv_but); } assert(this.f().po(this.f().pn[x as int] as int)); }
  loop 0 end
    proof { ns = ns.push(x as int); }
  loop 0 after
    proof { rt = x as int; }
  loop 1 before
    proof { pre = path@; }
    proof { this.lemma_chain_root(ns, up_path@, m); assert(arcs(this.ascent(rt)) =~= Seq::<u32>::empty()); assert(path@ =~= pre + arcs(this.ascent(rt))); assert(pre =~= Seq::<u32>::empty()); }
  loop 1 invariant
    - *this == *old(this)
    - i <= up_path@.len() && chain(this.f(), ns, up_path@, m) && path@ == pre + arcs(this.ascent(ns[i as int]))
  loop 1 decreases i
  loop 1 begin
    let ghost p1 = path@; let ghost i1 = i as int;
    proof { let y = ns[i - 1]; assert(this.f().wit(h.f, src, y)) by { reveal(S::inv_but); } }
  loop 1 end
    proof { let y = ns[i1 - 1]; let q1 = this.ascent(ns[i1]); let q2 = this.c().unp(&this.c().forward, ns[i1], this.f().pa[y] as int); assert(arcs(q1 + q2) =~= arcs(q1) + arcs(q2)); assert(path@ =~= pre + arcs(this.ascent(y))); }
  loop 2 before
    proof { assert(arcs(this.path()) =~= arcs(this.ascent(m)) + arcs(this.descent(m))); assert(pre + arcs(this.path()) =~= path@ + arcs(this.descent(m))); }
  loop 2 invariant
    - *this == *old(this)
    - this.b().pu(x as int) && path@ + arcs(this.descent(x as int)) == pre + arcs(this.path())
  loop 2 decreases x
  loop 2 begin
    let ghost p2 = path@; let ghost x2 = x as int;
    proof { assert(this.b().wit(h.b, tgt, x as int)) by { reveal(S::inv_but); } assert(this.b().po(this.b().pn[x as int] as int)); }
  loop 2 end
    proof { let q1 = this.c().unp(&this.c().backward, x as int, this.b().pa[x2] as int); let q2 = this.descent(x as int); assert(arcs(q1 + q2) =~= arcs(q1) + arcs(q2)); assert(path@ + arcs(q2) =~= p2 + arcs(this.descent(x2))); }
  loop 2 after
    proof { assert(arcs(this.descent(x as int)) =~= Seq::<u32>::empty()); assert(path@ =~= arcs(this.path())); }

fn unpack_forward_arc in=/get_node_path/ rust=/unpack_forward_arc_node/
  ghost gv: int
  ghost gi: In
  requires
    - hwf(ch.h(), ch.n()) && ch.stand(gi)
    - ch.h().f.arc(gv, arc as int)
  ensures
    - final(path)@ == old(path)@ + nodes(ch.unp(&ch.forward, gv, arc as int))
  decreases gv
  callghost unpack_backward_arc gv /./ ch.via(&ch.forward, gv, arc as int)
  callghost unpack_forward_arc gv /./ ch.via(&ch.forward, gv, arc as int)
  entry
    proof { ch.stand_size(gi); ch.stand_fwd(gi, gv, arc as int); assert(ch.h().f.fo[gv + 1] <= ch.h().f.fo[ch.n()]);
      if !ch.forward.orig(arc as int) { let z = ch.via(&ch.forward, gv, arc as int); assert(ch.h().f.fo[z + 1] <= ch.h().f.fo[ch.n()]); assert(ch.h().b.fo[z + 1] <= ch.h().b.fo[ch.n()]); } }
  exit
    proof {
      let q = ch.unp(&ch.forward, gv, arc as int);
      if ch.forward.orig(arc as int) { assert(nodes(q) =~= seq![q[0].v]); }
      else { let z = ch.via(&ch.forward, gv, arc as int); let q1 = ch.unp(&ch.backward, z, ch.forward.fst(arc as int)); let q2 = ch.unp(&ch.forward, z, ch.forward.snd(arc as int)); assert(nodes(q1 + q2) =~= nodes(q1) + nodes(q2)); }
      assert(path@ =~= old(path)@ + nodes(q));
    }

fn unpack_backward_arc in=/get_node_path/ rust=/unpack_backward_arc_node/
  ghost gv: int
  ghost gi: In
  requires
    - hwf(ch.h(), ch.n()) && ch.stand(gi)
    - ch.h().b.arc(gv, arc as int)
  ensures
    - final(path)@ == old(path)@ + nodes(ch.unp(&ch.backward, gv, arc as int))
  decreases gv
  callghost unpack_backward_arc gv /./ ch.via(&ch.backward, gv, arc as int)
  callghost unpack_forward_arc gv /./ ch.via(&ch.backward, gv, arc as int)
  entry
    proof { ch.stand_size(gi); ch.stand_bwd(gi, gv, arc as int); assert(ch.h().b.fo[gv + 1] <= ch.h().b.fo[ch.n()]);
      if !ch.backward.orig(arc as int) { let z = ch.via(&ch.backward, gv, arc as int); assert(ch.h().f.fo[z + 1] <= ch.h().f.fo[ch.n()]); assert(ch.h().b.fo[z + 1] <= ch.h().b.fo[ch.n()]); } }
  exit
    proof {
      let q = ch.unp(&ch.backward, gv, arc as int);
      if ch.backward.orig(arc as int) { assert(nodes(q) =~= seq![q[0].v]); }
      else { let z = ch.via(&ch.backward, gv, arc as int); let q1 = ch.unp(&ch.backward, z, ch.backward.fst(arc as int)); let q2 = ch.unp(&ch.forward, z, ch.backward.snd(arc as int)); assert(nodes(q1 + q2) =~= nodes(q1) + nodes(q2)); }
      assert(path@ =~= old(path)@ + nodes(q));
    }

fn ContractionHierarchyQuery::get_node_path
  ghost src: Map<int, int>
  ghost tgt: Map<int, int>
  ghost gi: In
  requires
    - old(this).ran(src, tgt) && old(this).c().stand(gi)
  ensures
    - *final(this) == *old(this)
    - old(this).dist() == INF() ==> r@.len() == 0
    - old(this).dist() != INF() ==> r@ == seq![old(this).from() as u32] + nodes(old(this).path())
    - old(this).dist() != INF() ==> r@.len() == arcs(old(this).path()).len() + 1 && r@[0] == old(this).from() && forall|i: int| 0 <= i < arcs(old(this).path()).len() ==> #[trigger] r@[i + 1] == gi.head[arcs(old(this).path())[i] as int]
  callghost unpack_forward_arc gv /./ ns[i as int]
  callghost unpack_backward_arc gv /./ this.b().pn[x as int] as int
  entry
    let ghost h = this.h(); let ghost n = this.n(); let ghost m = this.meet(); let ghost mut ns = seq![m]; let ghost mut pre = Seq::<u32>::empty(); let ghost mut rt = 0int;
    proof { lemma_parts(&this.f(), h, n, src, true, -1); lemma_parts(&this.b(), rev(h), n, tgt, true, -1); if m != INV() { this.lemma_path(gi, src, tgt); assert(this.f().small() && this.b().small()); } }
  loop 0 invariant
    - *this == *old(this)
    - this.f().pu(x as int) && chain(this.f(), ns, up_path@, m) && ns.last() == x && up_path@.len() + x <= m
    - path@.len() == 0
  loop 0 decreases x
  loop 0 begin
    proof { assert(this.f().wit(h.f, src, x as int)) by { reveal(S::inv_but); } assert(this.f().po(this.f().pn[x as int] as int)); }
  loop 0 end
    proof { ns = ns.push(x as int); }
  loop 0 after
    proof { rt = x as int; }
  loop 1 before
    proof { pre = path@; }
    proof { this.lemma_chain_root(ns, up_path@, m); assert(nodes(this.ascent(rt)) =~= Seq::<u32>::empty()); assert(path@ =~= pre + nodes(this.ascent(rt))); assert(pre =~= seq![this.from() as u32]); }
  loop 1 invariant
    - *this == *old(this)
    - i <= up_path@.len() && chain(this.f(), ns, up_path@, m) && path@ == pre + nodes(this.ascent(ns[i as int]))
  loop 1 decreases i
  loop 1 begin
    let ghost p1 = path@; let ghost i1 = i as int;
    proof { let y = ns[i - 1]; assert(this.f().wit(h.f, src, y)) by { reveal(S::inv_but); } }
  loop 1 end
    proof { let y = ns[i1 - 1]; let q1 = this.ascent(ns[i1]); let q2 = this.c().unp(&this.c().forward, ns[i1], this.f().pa[y] as int); assert(nodes(q1 + q2) =~= nodes(q1) + nodes(q2)); assert(path@ =~= pre + nodes(this.ascent(y))); }
  loop 2 before
    proof { assert(nodes(this.path()) =~= nodes(this.ascent(m)) + nodes(this.descent(m))); assert(pre + nodes(this.path()) =~= path@ + nodes(this.descent(m))); }
  loop 2 invariant
    - *this == *old(this)
    - this.b().pu(x as int) && path@ + nodes(this.descent(x as int)) == pre + nodes(this.path())
  loop 2 decreases x
  loop 2 begin
    let ghost p2 = path@; let ghost x2 = x as int;
    proof { assert(this.b().wit(h.b, tgt, x as int)) by { reveal(S::inv_but); } assert(this.b().po(this.b().pn[x as int] as int)); }
  loop 2 end
    proof { let q1 = this.c().unp(&this.c().backward, x as int, this.b().pa[x2] as int); let q2 = this.descent(x as int); assert(nodes(q1 + q2) =~= nodes(q1) + nodes(q2)); assert(path@ + nodes(q2) =~= p2 + nodes(this.descent(x2))); }
  loop 2 after
    proof { assert(nodes(this.descent(x as int)) =~= Seq::<u32>::empty()); assert(path@ =~= pre + nodes(this.path())); }

fn ContractionHierarchyQuery::get_used_source
  ghost src: Map<int, int>
  ghost tgt: Map<int, int>
  requires
    - old(this).ran(src, tgt)
  ensures
    - *final(this) == *old(this)
    - old(this).dist() == INF() ==> r == INV()
    - old(this).dist() != INF() ==> r == old(this).from()
  entry
    let ghost h = this.h(); let ghost n = this.n(); let ghost m = this.meet();
    proof { lemma_parts(&this.f(), h, n, src, true, -1); lemma_parts(&this.b(), rev(h), n, tgt, true, -1); if m != INV() { assert(this.f().small() && this.b().small()); } }
  loop 0 invariant
    - *this == *old(this)
    - this.f().pu(x as int) && root(this.f(), x as int) == root(this.f(), m)
  loop 0 decreases x
  loop 0 begin
    proof { assert(this.f().wit(h.f, src, x as int)) by { reveal(S::inv_but); } assert(this.f().po(this.f().pn[x as int] as int)); }

fn ContractionHierarchyQuery::get_used_target
  ghost src: Map<int, int>
  ghost tgt: Map<int, int>
  requires
    - old(this).ran(src, tgt)
  ensures
    - *final(this) == *old(this)
    - old(this).dist() == INF() ==> r == INV()
    - old(this).dist() != INF() ==> r == old(this).to()
  entry
    let ghost h = this.h(); let ghost n = this.n(); let ghost m = this.meet();
    proof { lemma_parts(&this.f(), h, n, src, true, -1); lemma_parts(&this.b(), rev(h), n, tgt, true, -1); if m != INV() { assert(this.f().small() && this.b().small()); } }
  loop 0 invariant
    - *this == *old(this)
    - this.b().pu(x as int) && root(this.b(), x as int) == root(this.b(), m)
  loop 0 decreases x
  loop 0 begin
    proof { assert(this.b().wit(h.b, tgt, x as int)) by { reveal(S::inv_but); } assert(this.b().po(this.b().pn[x as int] as int)); }
