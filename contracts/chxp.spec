fn ContractionHierarchyExtraWeight::reset
  hide hwf given comb ContractionHierarchy::xf ContractionHierarchy::xb ContractionHierarchy::via ContractionHierarchy::over Up::wf
  ghost gi: In
  requires
    - assoc() && hwf(ch.h(), ch.n()) && ch.stand(gi) && input_extra_weight@.len() == gi.tail.len()
  ensures
    - given(*final(this), *ch, input_extra_weight@)
  entry
    let ghost w = input_extra_weight@; let ghost c = *ch; let ghost ff = c.h().f.fo; let ghost bf = c.h().b.fo;
    proof { ch.stand_size(gi); upto_facts(c); }
  loop 0 before
    proof { upto_start(*this, c, w); }
  loop 0 invariant
    - x <= node_count && node_count == c.n()
    - upto(*this, c, w, x as int, ff[x as int] as int, bf[x as int] as int)
  loop 0 decreases node_count - x
  loop 0 begin
    proof { upto_range(c, x as int); }
  loop 0 end
    proof { upto_next(*this, c, w, x as int); }
  loop 0 after
    proof { upto_all(*this, c, w); }
  loop 1 invariant
    - ff[x as int] <= xy <= ff[x + 1]
    - upto(*this, c, w, x as int, xy as int, bf[x as int] as int)
  loop 1 decreases ff[x + 1] - xy
  loop 1 begin
    let ghost e0 = *this;
    proof { assert(c.h().f.arc(x as int, xy as int)); upto_use(e0, c, gi, w, x as int, xy as int, bf[x as int] as int, true, xy as int); }
  loop 1 end
    proof { upto_step(e0, c, w, x as int, xy as int, bf[x as int] as int, true, *this); }
  loop 2 invariant
    - bf[x as int] <= xy <= bf[x + 1]
    - upto(*this, c, w, x as int, ff[x + 1] as int, xy as int)
  loop 2 decreases bf[x + 1] - xy
  loop 2 begin
    let ghost e0 = *this;
    proof { assert(c.h().b.arc(x as int, xy as int)); upto_use(e0, c, gi, w, x as int, ff[x + 1] as int, xy as int, false, xy as int); }
  loop 2 end
    proof { upto_step(e0, c, w, x as int, ff[x + 1] as int, xy as int, false, *this); }
