sharefield Dijkstra first_out Vec<u32>
sharefield Dijkstra tail Vec<u32>
sharefield Dijkstra head Vec<u32>
functor vd::GetWeight get_weight

fn Dijkstra::Dijkstra sig=/\(\)/ rust=/Dijkstra_new0/
  ret r
  ensures
    - r.first_out.null()

fn Dijkstra::Dijkstra sig=/vector/ rust=/Dijkstra_new/
  ret r
  requires
    - (G { fo: first_out@, tail: tail@, head: head@ }).wf()
  ensures
    - r.g() == (G { fo: first_out@, tail: tail@, head: head@ })
    - r.inv(no_history())

fn Dijkstra::reset sig=/\(\)/ rust=/Dijkstra_reset0/
  requires
    - old(this).shape()
  ensures
    - final(this).g() == old(this).g()
    - final(this).inv(no_history())

fn Dijkstra::reset sig=/vector/ rust=/Dijkstra_reset/
  requires
    - old(this).first_out.null() || old(this).shape()
    - (G { fo: first_out@, tail: tail@, head: head@ }).wf()
  ensures
    - final(this).g() == (G { fo: first_out@, tail: tail@, head: head@ })
    - final(this).inv(no_history())

fn Dijkstra::add_source
  ghost h: Gh
  requires
    - old(this).inv(h)
    - id < old(this).g().n()
    - !old(this).popped(id as int)
    - !old(this).queue.has(id as int)
    - departure_time >= h.last
  ensures
    - final(this).g() == old(this).g()
    - final(this).inv(Gh { src: h.src.insert(id as int, departure_time as int), ..h })
  hide MinIDQueue::wf MinIDQueue::has MinIDQueue::key TimestampFlags::flag TimestampFlags::wf
  exit
    proof {
      let h2 = Gh { src: h.src.insert(id as int, departure_time as int), ..h };
      assert forall|v: int| 0 <= v < this.g().n() && #[trigger] this.popped(v) implies !this.queue.has(v) && 0 <= h2.rank[v] < h2.cnt && this.d(v) <= h2.last by { assert(old(this).popped(v)); }
      assert forall|v: int| 0 <= v < this.g().n() && (this.popped(v) || this.queue.has(v)) implies #[trigger] this.witnessed(h2, v) by {
        if v != id { assert(old(this).witnessed(h, v)); }
      }
      assert forall|s: int| #[trigger] h2.src.contains_key(s) implies 0 <= s < this.g().n() && h2.src[s] >= 0 && this.covered(s, h2.src[s]) by {
        if s != id { assert(h.src.contains_key(s)); assert(h2.src[s] == h.src[s]); assert(old(this).covered(s, h.src[s])); assert(0 <= s < old(this).g().n()); assert(this.popped(s) == old(this).popped(s)); assert(this.d(s) == old(this).d(s)); assert(old(this).queue.has(s) ==> this.queue.has(s) && this.k(s) == old(this).k(s)); assert(this.popped(s) || this.queue.has(s)); }
          else { assert(h2.src[s] == departure_time); assert(this.queue.has(s) && this.k(s) == departure_time); }
      }
      assert forall|a: int| 0 <= a < this.g().m() && this.popped(#[trigger] this.g().tail[a] as int) && fw(a) < INF() implies this.covered(this.g().head[a] as int, this.d(this.g().tail[a] as int) + fw(a)) by {
        assert(old(this).covered(this.g().head[a] as int, old(this).d(this.g().tail[a] as int) + fw(a))); assert(this.popped(this.g().head[a] as int) || this.queue.has(this.g().head[a] as int));
      }
    }

fn Dijkstra::is_finished
  requires
    - this.shape()
  ensures
    - r == (this.queue.heap_size == 0)
    - r ==> forall|h: Gh, v: int, d: int| #[trigger] this.inv(h) && #[trigger] reach(this.g(), h.src, v, d) ==> 0 <= v < this.g().n() && this.popped(v)
  entry
    proof {
      if this.queue.heap_size == 0 {
        assert forall|h: Gh, v: int, d: int| #[trigger] this.inv(h) && #[trigger] reach(this.g(), h.src, v, d) implies 0 <= v < this.g().n() && this.popped(v) by {
          lemma_complete(this, h, v, d);
        }
      }
    }

fn Dijkstra::was_node_reached
  requires
    - this.shape()
    - x < this.g().n()
  ensures
    - r == this.popped(x as int)

fn Dijkstra::settle
  attr verifier::spinoff_prover
  ghost h: Gh
  requires
    - old(this).inv(h)
    - old(this).queue.heap_size > 0
    - lengths_fit(old(this).g(), h.src)
  ensures
    - final(this).g() == old(this).g()
    - r.node < old(this).g().n()
    - !old(this).popped(r.node as int)
    - is_dist(old(this).g(), h.src, r.node as int, r.distance as int)
    - forall|v: int| 0 <= v < old(this).g().n() ==> #[trigger] final(this).popped(v) == (old(this).popped(v) || v == r.node)
    - forall|v: int| 0 <= v < old(this).g().n() && #[trigger] old(this).popped(v) ==> final(this).d(v) == old(this).d(v) && old(this).d(v) <= r.distance
    - final(this).inv(Gh { src: h.src, rank: h.rank.insert(r.node as int, h.cnt), cnt: h.cnt + 1, last: r.distance as int })
  hide MinIDQueue::wf MinIDQueue::has MinIDQueue::key TimestampFlags::flag TimestampFlags::wf
  loop 0 before
    let ghost h2 = Gh { src: h.src, rank: h.rank.insert(p.id as int, h.cnt), cnt: h.cnt + 1, last: p.key as int };
    proof {
      lemma_next_exact(old(this), h, p.id as int);
      assert(!old(this).popped(p.id as int));
      assert forall|v: int| 0 <= v < this.g().n() && #[trigger] this.popped(v) implies !this.queue.has(v) && 0 <= h2.rank[v] < h2.cnt && this.d(v) <= h2.last by { assert(old(this).popped(v) || v == p.id); }
      assert forall|v: int| #[trigger] this.queue.has(v) implies this.k(v) >= h2.last by { assert(old(this).queue.has(v)); }
      assert forall|v: int| 0 <= v < this.g().n() && (this.popped(v) || this.queue.has(v)) implies #[trigger] this.witnessed(h2, v) by {
        assert(old(this).witnessed(h, v));
      }
      assert forall|s: int| #[trigger] h2.src.contains_key(s) implies 0 <= s < this.g().n() && h2.src[s] >= 0 && this.covered(s, h2.src[s]) by {
        assert(h.src.contains_key(s)); assert(old(this).covered(s, h.src[s])); assert(this.popped(s) || this.queue.has(s));
      }
      assert forall|a: int| 0 <= a < this.g().m() && this.popped(#[trigger] this.g().tail[a] as int) && fw(a) < INF() && this.g().tail[a] != p.id implies this.covered(this.g().head[a] as int, this.d(this.g().tail[a] as int) + fw(a)) by {
        assert(old(this).covered(this.g().head[a] as int, old(this).d(this.g().tail[a] as int) + fw(a))); assert(this.popped(this.g().head[a] as int) || this.queue.has(this.g().head[a] as int));
      }
    }
  loop 0 begin
    let ghost t0 = *this;
    proof { assert(this.g().tail[a as int] == p.id) by {
        let t = this.g().tail[a as int] as int;
        if t < p.id { assert(this.g().fo[t + 1] <= this.g().fo[p.id as int]); }
        if t > p.id { assert(this.g().fo[p.id + 1] <= this.g().fo[t]); }
      }
      assert(is_dist(this.g(), h.src, this.g().tail[a as int] as int, p.key as int));
      assert(fw(a as int) < INF() ==> p.key + fw(a as int) < INF());
    }
  loop 0 end
    proof {
      assert forall|v: int| 0 <= v < this.g().n() && #[trigger] this.popped(v) implies !this.queue.has(v) && 0 <= h2.rank[v] < h2.cnt && this.d(v) <= h2.last by { assert(t0.popped(v)); }
      assert forall|v: int| 0 <= v < this.g().n() && (this.popped(v) || this.queue.has(v)) implies #[trigger] this.witnessed(h2, v) by {
        if t0.popped(v) || t0.queue.has(v) { assert(t0.witnessed(h2, v)); }
      }
      assert forall|s: int| #[trigger] h2.src.contains_key(s) implies 0 <= s < this.g().n() && h2.src[s] >= 0 && this.covered(s, h2.src[s]) by {
        assert(t0.covered(s, h2.src[s])); assert(this.popped(s) || this.queue.has(s));
      }
      assert forall|b: int| 0 <= b < this.g().m() && this.popped(#[trigger] this.g().tail[b] as int) && fw(b) < INF() && !(this.g().tail[b] == p.id && b >= a + 1) implies this.covered(this.g().head[b] as int, this.d(this.g().tail[b] as int) + fw(b)) by {
        if b != a { assert(t0.covered(this.g().head[b] as int, t0.d(this.g().tail[b] as int) + fw(b))); assert(this.popped(this.g().head[b] as int) || this.queue.has(this.g().head[b] as int)); } else { let v = this.g().head[b] as int; if t0.popped(v) { assert(this.popped(v)); assert(this.d(v) <= h2.last); } else { assert(this.queue.has(v)); assert(this.k(v) <= p.key + fw(a as int)); } }
      }
    }
  loop 0 invariant
    - this.g() == old(this).g()
    - this.first_out == old(this).first_out && this.head == old(this).head
    - p.id < this.g().n()
    - this.g().fo[p.id as int] <= a <= this.g().fo[p.id + 1]
    - this.popped(p.id as int) && this.d(p.id as int) == p.key
    - forall|v: int| 0 <= v < this.g().n() ==> #[trigger] this.popped(v) == (old(this).popped(v) || v == p.id)
    - forall|v: int| 0 <= v < this.g().n() && #[trigger] old(this).popped(v) ==> this.d(v) == old(this).d(v)
    - this.inv_but(h2, p.id as int, a as int)
  loop 0 decreases this.g().fo[p.id + 1] - a

fn Dijkstra::get_distance_to
  ghost h: Gh
  requires
    - this.inv(h)
    - x < this.g().n()
  ensures
    - this.popped(x as int) ==> is_dist(this.g(), h.src, x as int, r as int)
    - !this.popped(x as int) ==> r == INF()
  entry
    proof { if this.popped(x as int) { lemma_popped_exact(this, h, x as int); } }

fn Dijkstra::get_node_path_to
  ghost h: Gh
  requires
    - this.inv(h)
    - x < this.g().n()
  ensures
    - !this.popped(x as int) ==> r@.len() == 0
    - this.popped(x as int) ==> exists|s: int, ap: Seq<u32>| #[trigger] reach_by(this.g(), h.src, x as int, this.d(x as int), s, ap) && nodes_of(this.g(), r@, ap, s, x as int)
  loop 0 before
    let ghost mut ap = Seq::<u32>::empty();
    proof { assert(wlen(ap) == 0); }
  loop 0 invariant_except_break
    - true
  loop 0 invariant
    - x < this.g().n() && this.popped(x as int)
    - this.g().walk(ap, x as int, x_0 as int)
    - this.d(x as int) + wlen(ap) == this.d(x_0 as int)
    - path@.len() == ap.len()
    - forall|k: int| 0 <= k < ap.len() ==> ap[k] < this.g().m() && this.g().head[#[trigger] ap[k] as int] == path@[ap.len() - 1 - k]
    - forall|k: int| 1 <= k < ap.len() ==> this.g().tail[#[trigger] ap[k] as int] == path@[ap.len() - k]
    - ap.len() > 0 ==> this.g().tail[ap[0] as int] == x && path@[0] == x_0
    - ap.len() == 0 ==> x == x_0
  loop 0 ensures
    - this.predecessor_arc@[x as int] == 0xFFFF_FFFFu32
  loop 0 decreases h.rank[x as int]
  loop 0 begin
    proof {
      assert(this.witnessed(h, x as int));
      lemma_prepend(this.g(), p, ap, x_0 as int);
      ap = seq![p] + ap;
    }
  loop 0 after
    proof { assert(this.witnessed(h, x as int)); assert(reach_by(this.g(), h.src, x_0 as int, this.d(x_0 as int), x as int, ap));
      let np = path@.push(x).reverse();
      assert(nodes_of(this.g(), np, ap, x as int, x_0 as int)); }

fn Dijkstra::get_arc_path_to
  ghost h: Gh
  requires
    - this.inv(h)
    - x < this.g().n()
  ensures
    - !this.popped(x as int) ==> r@.len() == 0
    - this.popped(x as int) ==> exists|s: int| #[trigger] reach_by(this.g(), h.src, x as int, this.d(x as int), s, r@)
  loop 0 before
    proof { assert(path@.reverse() =~= Seq::<u32>::empty()); assert(wlen(path@.reverse()) == 0); }
  loop 0 invariant
    - x < this.g().n() && this.popped(x as int)
    - this.g().walk(path@.reverse(), x as int, x_0 as int)
    - this.d(x as int) + wlen(path@.reverse()) == this.d(x_0 as int)
  loop 0 ensures
    - this.predecessor_arc@[x as int] == 0xFFFF_FFFFu32
  loop 0 decreases h.rank[x as int]
  loop 0 begin
    proof {
      assert(this.witnessed(h, x as int));
      lemma_prepend(this.g(), p, path@.reverse(), x_0 as int);
      lemma_rev_push(path@, p);
    }
  loop 0 after
    proof { assert(this.witnessed(h, x as int)); assert(reach_by(this.g(), h.src, x_0 as int, this.d(x_0 as int), x as int, path@.reverse())); }
