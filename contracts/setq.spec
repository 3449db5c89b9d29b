fn IDSetMinQueue::smallest_two_power_no_smaller_than
  requires
    - x < 0x7FFF_FFFF
  ensures
    - exists|k: int| k >= 0 && r == #[trigger] po(k)
    - r >= x
    - r <= 0x8000_0000
    - x >= 2 ==> r < 2 * x
    - x <= 1 ==> r == 1
  entry
    let ghost mut k: int = 0;
    proof { lemma_bits(); }
  loop 0 invariant
    - 0 <= k <= 31
    - y == po(k)
    - y <= 0x8000_0000
    - y == 1 || y < 2 * x
  loop 0 begin
    proof { lemma_po(k); lemma_po31(); if k == 31 { assert(false); } lemma_po_mono(k, 30); k = k + 1; }
  loop 0 decreases 0x1_0000_0000 - y

fn IDSetMinQueue::IDSetMinQueue sig=/unsigned/ rust=/IDSetMinQueue_new/
  requires
    - n < 0x7FFF_FFFF
  ensures
    - wf(r)
    - r.max_number_of_ids == n
    - forall|i: int| !#[trigger] has(r, i)
  entry
    proof { lemma_bits(); }
    let ghost hh = choose|k: int| k >= 0 && this.offset == #[trigger] po(k);
    proof { lemma_po(hh); assert(n & 1 == n % 2) by(bit_vector); assert(n + this.offset + n % 2 < 0x1_0000_0000) by { if hh > 0 && this.offset == 0x8000_0000 { } } }
  exit
    proof { assert(shape(this, hh)); assert(forall|x: int| !#[trigger] bit(this.data@, x)); assert forall|z: int| ok(this.data@, z) by {} }

fn IDSetMinQueue::IDSetMinQueue sig=/void \(\)/ rust=/IDSetMinQueue_new0/
  ensures
    - wf(r)
    - r.max_number_of_ids == 0

fn IDSetMinQueue::id_count
  ensures
    - r == this.max_number_of_ids

fn IDSetMinQueue::contains
  requires
    - wf(*this)
    - id < this.max_number_of_ids
  ensures
    - r == has(*this, id as int)

fn IDSetMinQueue::empty
  requires
    - wf(*this)
  ensures
    - r == (forall|i: int| !#[trigger] has(*this, i))
    - r == (this.min_id == 0xFFFF_FFFF)

fn IDSetMinQueue::peek
  requires
    - wf(*this)
  ensures
    - r == this.min_id
    - r == 0xFFFF_FFFF ==> forall|i: int| !#[trigger] has(*this, i)
    - r != 0xFFFF_FFFF ==> has(*this, r as int) && forall|i: int| #[trigger] has(*this, i) ==> r <= i

fn IDSetMinQueue::push
  requires
    - wf(*old(this))
    - id < old(this).max_number_of_ids
  ensures
    - wf(*final(this))
    - final(this).max_number_of_ids == old(this).max_number_of_ids
    - forall|i: int| #[trigger] has(*final(this), i) == (i == id || has(*old(this), i))
  entry
    let ghost hh = choose|k: int| #[trigger] shape(*this, k);
    let ghost q0 = *this;
    let ghost mut h: int = 0;
    let ghost leaf: int = this.offset + id;
    proof { lemma_bits(); lemma_po(hh); assert(at(leaf, 0, hh)); lemma_at(leaf, 0, hh); }
  exit
    proof {
        let q = *this;
        assert(shape(q, hh));
        assert forall|i: int| #[trigger] has(q, i) == (i == id || has(q0, i)) by { if 0 <= i < q.max_number_of_ids && i != id { assert(q.offset + i != leaf); } }
    }
  loop 0 invariant_except_break
    - this.offset == q0.offset && this.max_number_of_ids == q0.max_number_of_ids
    - this.data@.len() == q0.data@.len()
    - this.min_id == (if q0.min_id == 0xFFFF_FFFF || id < q0.min_id { id } else { q0.min_id })
    - at(x as int, h, hh)
    - !bit(this.data@, x as int)
    - x < this.data@.len()
    - okx(this.data@, this.offset as int, x as int)
    - h == 0 ==> x == leaf
    - h > 0 ==> bit(this.data@, 2 * x) || bit(this.data@, 2 * x + 1)
    - forall|l: int| this.offset <= l ==> #[trigger] bit(this.data@, l) == (bit(q0.data@, l) || (l == leaf && h > 0))
  loop 0 ensures
    - this.offset == q0.offset && this.max_number_of_ids == q0.max_number_of_ids
    - this.data@.len() == q0.data@.len()
    - this.min_id == (if q0.min_id == 0xFFFF_FFFF || id < q0.min_id { id } else { q0.min_id })
    - tree(*this)
    - forall|l: int| this.offset <= l ==> #[trigger] bit(this.data@, l) == (bit(q0.data@, l) || l == leaf)
  loop 0 begin
    let ghost d0 = this.data@; let ghost x0 = x as int;
    proof {
        lemma_at(x as int, h, hh);
        let d1 = d0.update(x0, true);
        assert forall|z: int| #[trigger] bit(d1, z) == (z == x0 || bit(d0, z)) by {}
        assert forall|z: int| 1 <= z < this.offset && z != x0 / 2 implies #[trigger] ok(d1, z) by { if z != x0 { assert(ok(d0, z)); } }
        assert(forall|l: int| this.offset <= l ==> bit(d1, l) == (bit(q0.data@, l) || l == leaf));
        if h < hh { assert(ok(d1, x0 / 2) <==> bit(d0, x0 / 2)); assert(x0 / 2 < d0.len()); h = h + 1; }
    }
  loop 0 decreases x

fn IDSetMinQueue::pop
  requires
    - wf(*old(this))
    - old(this).min_id != 0xFFFF_FFFF
  ensures
    - wf(*final(this))
    - final(this).max_number_of_ids == old(this).max_number_of_ids
    - r == old(this).min_id
    - has(*old(this), r as int)
    - forall|i: int| #[trigger] has(*old(this), i) ==> r <= i
    - forall|i: int| #[trigger] has(*final(this), i) == (i != r && has(*old(this), i))
    - final(this).min_id > old(this).min_id
  entry
    let ghost hh = choose|k: int| #[trigger] shape(*this, k);
    let ghost q0 = *this;
    let ghost mut h: int = 0;
    let ghost leaf: int = this.offset + this.min_id;
    proof { lemma_bits(); lemma_po(hh); assert(has(q0, q0.min_id as int)); assert(at(leaf, 0, hh)); lemma_at(leaf, 0, hh);
        assert forall|l: int| this.offset <= l < leaf implies !#[trigger] bit(this.data@, l) by { if bit(this.data@, l) { assert(has(q0, l - q0.offset)); } } }
  loop 0 invariant
    - this.offset == q0.offset && this.max_number_of_ids == q0.max_number_of_ids && this.min_id == q0.min_id
    - this.data@.len() == q0.data@.len()
    - at(x as int, h, hh)
    - lo(x as int, h) <= leaf <= hi(x as int, h)
  loop 0 invariant_except_break
    - bit(this.data@, x as int)
    - okx(this.data@, this.offset as int, x as int)
    - h == 0 ==> x == leaf
    - h > 0 ==> !bit(this.data@, 2 * x) && !bit(this.data@, 2 * x + 1)
    - forall|l: int| this.offset <= l ==> #[trigger] bit(this.data@, l) == (bit(q0.data@, l) && !(l == leaf && h > 0))
  loop 0 ensures
    - tree(*this)
    - forall|l: int| this.offset <= l ==> #[trigger] bit(this.data@, l) == (bit(q0.data@, l) && l != leaf)
    - x % 2 == 0
    - !bit(this.data@, x as int)
    - bit(this.data@, x + 1)
    - h < hh
  loop 0 begin
    let ghost d0 = this.data@; let ghost x0 = x as int;
    proof {
        lemma_at(x0, h, hh);
        let d1 = d0.update(x0, false);
        assert forall|z: int| #[trigger] bit(d1, z) == (z != x0 && bit(d0, z)) by {}
        assert forall|z: int| 1 <= z < this.offset && z != x0 / 2 implies #[trigger] ok(d1, z) by { if z != x0 { assert(ok(d0, z)); } }
        if h < hh {
            assert(ok(d0, x0 / 2));
            lemma_po(hh - h);
            lemma_at(x0 / 2, h + 1, hh);
            if x0 % 2 == 1 {
                lemma_lohi(x0 - 1, h); lemma_at(x0 - 1, h, hh);
                if bit(d0, x0 - 1) { let l = lemma_leaf(d0, x0 - 1, h, hh, x0); assert(bit(q0.data@, l)); assert(false); }
                assert(2 * (x0 / 2) == x0 - 1);
            } else { assert(2 * (x0 / 2) == x0); }
            lemma_lohi(2 * (x0 / 2), h); lemma_lohi(2 * (x0 / 2) + 1, h);
            assert(x0 % 2 == 0 ==> x0 + 1 < d0.len()) by { lemma_po(hh); if x0 % 2 == 0 && x0 < this.offset { } }
            assert(ok(d1, x0 / 2) <==> (x0 % 2 == 0 && bit(d0, x0 + 1)));
        }
    }
  loop 0 end
    proof { h = h + 1; }
  loop 0 decreases x
  loop 1 before
    proof { lemma_at(x - 1, h, hh); lemma_lohi(x - 1, h);
        assert forall|l: int| this.offset <= l < lo(x as int, h) implies !#[trigger] bit(this.data@, l) by {
            if l > leaf { lemma_po(hh - h); lemma_noleaf(this.data@, x - 1, h, hh, 0, l); } else if l < leaf { assert(!bit(q0.data@, l)); } } }
  loop 1 invariant_except_break
    - at(x as int, h, hh)
    - bit(this.data@, x as int)
    - forall|l: int| this.offset <= l < lo(x as int, h) ==> !#[trigger] bit(this.data@, l)
  loop 1 ensures
    - at(x as int, 0, hh)
    - bit(this.data@, x as int)
    - forall|l: int| this.offset <= l < x ==> !#[trigger] bit(this.data@, l)
  loop 1 begin
    proof { lemma_at(x as int, h, hh); if h > 0 { assert(ok(this.data@, x as int)); lemma_lohi(2 * x, h - 1);
        assert forall|l: int| this.offset <= l < lo(2 * x + 1, h - 1) && !bit(this.data@, 2 * x) implies !#[trigger] bit(this.data@, l) by {
            if l >= lo(2 * x, h - 1) { lemma_po(hh - h + 1); assert(hh - (h - 1) == hh - h + 1); lemma_noleaf(this.data@, 2 * x, h - 1, hh, 0, l); } } } }
  loop 1 end
    proof { h = h - 1; }
  loop 1 decreases h
  exit
    proof {
        let q = *this;
        assert(shape(q, hh));
        assert forall|i: int| #[trigger] has(q, i) == (i != r && has(q0, i)) by { if 0 <= i < q.max_number_of_ids { assert(q.offset + i >= q.offset); } }
        if q.min_id == 0xFFFF_FFFF { lemma_po(hh); lemma_po(0); lemma_lo1(0, hh); lemma_lohi(1, hh); assert(at(1, hh, hh));
            assert forall|i: int| !#[trigger] has(q, i) by { if has(q, i) { lemma_noleaf(q.data@, 1, hh, hh, 0, q.offset + i); } } }
        if q.min_id != 0xFFFF_FFFF { assert forall|i: int| #[trigger] has(q, i) implies q.min_id <= i by {} }
    }

fn IDSetMinQueue::clear
  requires
    - wf(*old(this))
  ensures
    - wf(*final(this))
    - final(this).max_number_of_ids == old(this).max_number_of_ids
    - forall|i: int| !#[trigger] has(*final(this), i)
  loop 0 invariant
    - wf(*this)
    - this.max_number_of_ids == old(this).max_number_of_ids
  loop 0 decreases 0x1_0000_0000 - this.min_id
