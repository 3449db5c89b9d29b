arrayfield BitVector data_ u64
functor vb::Pred pred_exec pred_spec
fn get_v8_uint64_count
  requires
    - bit_count <= SIZE_MAX_()
  ensures
    - r == nblk(bit_count as int)

fn get_uint64_count
  requires
    - bit_count <= SIZE_MAX_()
  ensures
    - r == 8 * nblk(bit_count as int)

fn get_uint8_count
  requires
    - bit_count <= SIZE_MAX_()
  ensures
    - r == 64 * nblk(bit_count as int)

fn get_padding_mask
  ensures
    - is_mask(r, size as int)
  loop 0 invariant
    - 0 <= i <= 8
    - x + 64 * i == size % 512
    - forall|w: int| 0 <= w < 8 ==> #[trigger] u@[w] == (if w < i { 0xffff_ffff_ffff_ffffu64 } else { 0 })
  loop 0 decreases x
  exit
    proof {
        if size != 0 && size % 512 == 0 { lem_const_bits(r@, 0, 8, true); }
        else {
            let y = (size % 512) as int;
            assert forall|k: int| 0 <= k < 512 implies #[trigger] vbit(r@, k) == in_mask(size as int, k) by {
                let w = k / 64;
                lem_wbit_zero(k % 64);
                if y % 64 != 0 { lem_wbit_low((y % 64) as u64, k % 64); }
            }
        }
    }

fn is_any_bit_set
  ensures
    - r == (exists|k: int| 0 <= k < 512 && #[trigger] vbit(x@, k))
  exit
    proof { lem_any(x@); }

fn are_all_bits_set
  ensures
    - r == (forall|k: int| 0 <= k < 512 ==> #[trigger] vbit(x@, k))
  exit
    proof { lem_all(x@); }

fn are_all_padding_bits_zero
  requires
    - v.mem()
  ensures
    - r == zero_from(v.data_@, v.n())

# ---- construction, copying
fn BitVector::BitVector sig=/void \(\)/ rust=/BitVector_new/
  ensures
    - r.wf()
    - r.n() == 0

fn BitVector::BitVector sig=/Uninitialized/ rust=/BitVector_new_uninit/
  requires
    - size <= SIZE_MAX_()
  ensures
    - r.wf()
    - r.n() == size

fn BitVector::BitVector sig=/bool/ rust=/BitVector_new_init/
  requires
    - size <= SIZE_MAX_()
  ensures
    - r.wf()
    - r.n() == size
    - forall|x: int| 0 <= x < size ==> #[trigger] r.get(x) == init_value
  loop 0 invariant
    - i <= nblk(size as int)
    - this.data_@.len() == 8 * nblk(size as int)
    - this.size_ == size
    - forall|x: int| 0 <= x < 512 * i ==> #[trigger] vbit(this.data_@, x) == init_value
  loop 0 decreases nblk(size as int) - i

fn BitVector::BitVector sig=/const/ rust=/BitVector_copy/
  requires
    - o.wf()
  ensures
    - r.wf()
    - r.n() == o.n()
    - forall|x: int| 0 <= x < o.n() ==> #[trigger] r.get(x) == o.get(x)
  loop 0 invariant
    - i <= nblk(o.n())
    - j == i
    - this.data_@.len() == 8 * nblk(o.n())
    - this.size_ == o.size_
    - forall|x: int| 0 <= x < 512 * i ==> #[trigger] vbit(this.data_@, x) == vbit(o.data_@, x)
  loop 0 decreases nblk(o.n()) - i

fn BitVector::BitVector sig=/&&/ rust=/BitVector_move/
  drop_asserts
  requires
    - old(o).wf()
  ensures
    - r.wf()
    - r.n() == old(o).n()
    - forall|x: int| 0 <= x < old(o).n() ==> #[trigger] r.get(x) == old(o).get(x)
    - final(o).wf()
    - final(o).n() == 0

fn BitVector::operator= rust=/BitVector_assign/
  requires
    - o.wf()
    - old(this).wf()
  ensures
    - final(this).wf()
    - final(this).n() == o.n()
    - forall|x: int| 0 <= x < o.n() ==> #[trigger] final(this).get(x) == o.get(x)

fn BitVector::swap
  requires
    - old(o).wf()
    - old(this).wf()
  ensures
    - final(this).wf()
    - final(o).wf()
    - final(this).size_ == old(o).size_
    - final(o).size_ == old(this).size_
    - final(this).data_@ == old(o).data_@
    - final(o).data_@ == old(this).data_@

fn BitVector::reset_all_padding_bits
  requires
    - old(this).mem()
  ensures
    - final(this).wf()
    - final(this).size_ == old(this).size_
    - same_bits(final(this).data_@, old(this).data_@, old(this).n())

# ---- changing the size
fn BitVector::resize sig=/Uninitialized/ rust=/BitVector_resize_uninit/
  hide vbit
  requires
    - old(this).wf()
    - new_size <= SIZE_MAX_()
  ensures
    - final(this).wf()
    - final(this).n() == new_size
    - forall|x: int| 0 <= x < new_size && x < old(this).n() ==> #[trigger] final(this).get(x) == old(this).get(x)
  loop 0 invariant
    - i <= nblk(this.n())
    - i <= nblk(o.n())
    - j == i
    - o.data_@.len() == 8 * nblk(o.n())
    - o.size_ == new_size
    - forall|x: int| 0 <= x < 512 * i ==> #[trigger] vbit(o.data_@, x) == vbit(this.data_@, x)
  loop 0 decreases nblk(this.n()) - i

fn BitVector::resize sig=/bool/ rust=/BitVector_resize_init/
  hide vbit
  requires
    - old(this).wf()
    - new_size <= SIZE_MAX_()
  ensures
    - final(this).wf()
    - final(this).n() == new_size
    - forall|x: int| 0 <= x < new_size ==> #[trigger] final(this).get(x) == if x < old(this).n() { old(this).get(x) } else { value }
  loop 0 invariant
    - i <= nblk(this.n())
    - j == i
    - o.data_@.len() == 8 * nblk(o.n())
    - o.size_ == new_size
    - forall|x: int| 0 <= x < 512 * i ==> #[trigger] vbit(o.data_@, x) == vbit(this.data_@, x)
  loop 0 decreases nblk(this.n()) - i
  loop 1 invariant
    - nblk(this.n()) <= j <= nblk(o.n())
    - o.data_@.len() == 8 * nblk(o.n())
    - o.size_ == new_size
    - forall|x: int| 0 <= x < 512 * j ==> #[trigger] vbit(o.data_@, x) == if x < this.n() { vbit(this.data_@, x) } else { true }
  loop 1 decreases nblk(o.n()) - j
  loop 2 invariant
    - nblk(this.n()) <= j <= nblk(o.n())
    - o.data_@.len() == 8 * nblk(o.n())
    - o.size_ == new_size
    - forall|x: int| 0 <= x < 512 * j ==> #[trigger] vbit(o.data_@, x) == if x < this.n() { vbit(this.data_@, x) } else { false }
  loop 2 decreases nblk(o.n()) - j

fn BitVector::make_large_enough_for sig=/Uninitialized/ rust=/BitVector_enlarge_uninit/
  requires
    - old(this).wf()
    - x < SIZE_MAX_()
  ensures
    - final(this).wf()
    - final(this).n() > x
    - final(this).n() >= old(this).n()
    - forall|k: int| 0 <= k < old(this).n() ==> #[trigger] final(this).get(k) == old(this).get(k)
  loop 0 invariant
    - exists|e: u64| e <= 62 && n == (1u64 << e)
    - 1 <= n <= SIZE_MAX_()
  loop 0 decreases SIZE_MAX_() + x - n
  entry
    proof { assert((1u64 << 0u64) == 1) by(bit_vector); }
  loop 0 begin
    proof { lem_shl1(n); }

fn BitVector::make_large_enough_for sig=/bool/ rust=/BitVector_enlarge_init/
  requires
    - old(this).wf()
    - x < SIZE_MAX_()
  ensures
    - final(this).wf()
    - final(this).n() > x
    - final(this).n() >= old(this).n()
    - forall|k: int| 0 <= k < final(this).n() ==> #[trigger] final(this).get(k) == if k < old(this).n() { old(this).get(k) } else { init_value }
  loop 0 invariant
    - exists|e: u64| e <= 62 && n == (1u64 << e)
    - 1 <= n <= SIZE_MAX_()
  loop 0 decreases SIZE_MAX_() + x - n
  entry
    proof { assert((1u64 << 0u64) == 1) by(bit_vector); }
  loop 0 begin
    proof { lem_shl1(n); }

# ---- element access
fn BitVector::is_set
  requires
    - this.mem()
    - x < this.n()
  ensures
    - r == this.get(x as int)

fn BitVector::size
  ensures
    - r == this.n()

fn BitVector::set sig=/void \(uint64_t\)|void \(unsigned long\)/ rust=/BitVector_set1/
  requires
    - old(this).wf()
    - x < old(this).n()
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - forall|k: int| 0 <= k < old(this).n() ==> #[trigger] final(this).get(k) == if k == x { true } else { old(this).get(k) }
  exit
    proof { lem_put(old(this).data_@, this.data_@, x, 0, true); }

fn BitVector::set_if
  requires
    - old(this).wf()
    - x < old(this).n()
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - forall|k: int| 0 <= k < old(this).n() ==> #[trigger] final(this).get(k) == if k == x { old(this).get(k) || value } else { old(this).get(k) }
  exit
    proof { lem_put(old(this).data_@, this.data_@, x, 1, value); }

fn BitVector::set sig=/bool/ rust=/BitVector_set2/
  requires
    - old(this).wf()
    - x < old(this).n()
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - forall|k: int| 0 <= k < old(this).n() ==> #[trigger] final(this).get(k) == if k == x { value } else { old(this).get(k) }
  exit
    proof { lem_put(old(this).data_@, this.data_@, x, 2, value); }

fn BitVector::reset
  requires
    - old(this).wf()
    - x < old(this).n()
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - forall|k: int| 0 <= k < old(this).n() ==> #[trigger] final(this).get(k) == if k == x { false } else { old(this).get(k) }
  exit
    proof { lem_put(old(this).data_@, this.data_@, x, 3, true); }

fn BitVector::toggle
  requires
    - old(this).wf()
    - x < old(this).n()
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - forall|k: int| 0 <= k < old(this).n() ==> #[trigger] final(this).get(k) == if k == x { !old(this).get(k) } else { old(this).get(k) }
  exit
    proof { lem_put(old(this).data_@, this.data_@, x, 4, true); }

# ---- whole vector operations
fn BitVector::set_all sig=/void \(\)/ rust=/BitVector_set_all0/
  requires
    - old(this).wf()
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - forall|k: int| 0 <= k < old(this).n() ==> #[trigger] final(this).get(k)
  loop 0 invariant
    - i <= nblk(this.n())
    - this.mem()
    - this.size_ == old(this).size_
    - forall|k: int| 0 <= k < 512 * i ==> #[trigger] vbit(this.data_@, k)
  loop 0 decreases nblk(this.n()) - i

fn BitVector::set_all sig=/bool/ rust=/BitVector_set_all1/
  requires
    - old(this).wf()
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - forall|k: int| 0 <= k < old(this).n() ==> #[trigger] final(this).get(k) == value
  loop 0 invariant
    - i <= nblk(this.n())
    - this.mem()
    - this.size_ == old(this).size_
    - forall|k: int| 0 <= k < 512 * i ==> #[trigger] vbit(this.data_@, k) == value
  loop 0 decreases nblk(this.n()) - i

fn BitVector::reset_all
  requires
    - old(this).wf()
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - forall|k: int| 0 <= k < old(this).n() ==> !(#[trigger] final(this).get(k))
  loop 0 invariant
    - i <= nblk(this.n())
    - this.mem()
    - this.size_ == old(this).size_
    - forall|k: int| 0 <= k < 512 * i ==> !(#[trigger] vbit(this.data_@, k))
  loop 0 decreases nblk(this.n()) - i

fn BitVector::are_all_set
  hide vbit
  requires
    - this.wf()
  ensures
    - r == (forall|k: int| 0 <= k < this.n() ==> #[trigger] vbit(this.data_@, k))
  loop 0 invariant
    - i <= n
    - n == nblk(this.n()) - 1
    - forall|y: int| 0 <= y < 512 * i && !(#[trigger] vbit(this.data_@, y)) ==> !vbit(x@, y % 512)
    - forall|k: int| 0 <= k < 512 && !(#[trigger] vbit(x@, k)) ==> bit_at(this.data_@, false, k, i as int)
  loop 0 decreases n - i

fn BitVector::is_any_set
  hide vbit
  requires
    - this.wf()
  ensures
    - r == (exists|k: int| 0 <= k < this.n() && #[trigger] vbit(this.data_@, k))
  loop 0 invariant
    - i <= nblk(this.n())
    - forall|y: int| 0 <= y < 512 * i && #[trigger] vbit(this.data_@, y) ==> vbit(x@, y % 512)
    - forall|k: int| 0 <= k < 512 && #[trigger] vbit(x@, k) ==> bit_at(this.data_@, true, k, i as int)
  loop 0 decreases nblk(this.n()) - i

fn BitVector::population_count
  requires
    - this.wf()
  ensures
    - r == count(this.data_@, this.n())
  loop 0 invariant
    - i <= 8 * nblk(this.n())
    - n == count(this.data_@, 64 * i)
    - n <= 64 * i
  loop 0 decreases 8 * nblk(this.n()) - i
  loop 0 end
    proof { lem_count_word(this.data_@, i as int); }
  loop 0 after
    proof { lem_count_zero(this.data_@, this.n(), (64 * this.data_@.len()) as int); }

fn BitVector::operator|= rust=/BitVector_or_assign/
  requires
    - old(this).wf()
    - o.wf()
    - o.n() == old(this).n()
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - forall|k: int| 0 <= k < old(this).n() ==> #[trigger] final(this).get(k) == (old(this).get(k) || o.get(k))
  loop 0 invariant
    - i <= nblk(this.n())
    - j == i
    - this.mem()
    - this.size_ == old(this).size_
    - forall|k: int| 0 <= k < 64 * this.data_@.len() ==> #[trigger] vbit(this.data_@, k) == if k < 512 * i { old(this).get(k) || o.get(k) } else { old(this).get(k) }
  loop 0 decreases nblk(this.n()) - i

fn BitVector::operator^= rust=/BitVector_xor_assign/
  requires
    - old(this).wf()
    - o.wf()
    - o.n() == old(this).n()
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - forall|k: int| 0 <= k < old(this).n() ==> #[trigger] final(this).get(k) == (old(this).get(k) != o.get(k))
  loop 0 invariant
    - i <= nblk(this.n())
    - j == i
    - this.mem()
    - this.size_ == old(this).size_
    - forall|k: int| 0 <= k < 64 * this.data_@.len() ==> #[trigger] vbit(this.data_@, k) == if k < 512 * i { old(this).get(k) != o.get(k) } else { old(this).get(k) }
  loop 0 decreases nblk(this.n()) - i

fn BitVector::operator&= rust=/BitVector_and_assign/
  requires
    - old(this).wf()
    - o.wf()
    - o.n() == old(this).n()
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - forall|k: int| 0 <= k < old(this).n() ==> #[trigger] final(this).get(k) == (old(this).get(k) && o.get(k))
  loop 0 invariant
    - i <= nblk(this.n())
    - j == i
    - this.mem()
    - this.size_ == old(this).size_
    - forall|k: int| 0 <= k < 64 * this.data_@.len() ==> #[trigger] vbit(this.data_@, k) == if k < 512 * i { old(this).get(k) && o.get(k) } else { old(this).get(k) }
  loop 0 decreases nblk(this.n()) - i

fn BitVector::inplace_not
  requires
    - old(this).wf()
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - forall|k: int| 0 <= k < old(this).n() ==> #[trigger] final(this).get(k) == !old(this).get(k)
  loop 0 invariant
    - i <= nblk(this.n())
    - this.mem()
    - this.size_ == old(this).size_
    - forall|k: int| 0 <= k < 64 * this.data_@.len() ==> #[trigger] vbit(this.data_@, k) == if k < 512 * i { !old(this).get(k) } else { old(this).get(k) }
  loop 0 decreases nblk(this.n()) - i

fn BitVector::operator~ rust=/BitVector_not/
  requires
    - this.wf()
  ensures
    - r.wf()
    - r.n() == this.n()
    - forall|k: int| 0 <= k < this.n() ==> #[trigger] r.get(k) == !this.get(k)

fn BitVector::count_true
  requires
    - this.wf()
  ensures
    - r == count(this.data_@, this.n())

fn BitVector::count_false
  requires
    - this.wf()
  ensures
    - r == this.n() - count(this.data_@, this.n())
  entry
    proof { lem_count_le(this.data_@, this.n()); }

# ---- comparison
fn operator== sig=/BitVector/ rust=/BitVector_eq/
  hide vbit
  requires
    - l.wf()
    - r.wf()
  ret q
  ensures
    - q == (l.n() == r.n() && same_bits(l.data_@, r.data_@, l.n()))
  loop 0 invariant
    - i <= nblk(l.n())
    - j == i
    - l.n() == r.n()
    - forall|y: int| 0 <= y < 512 * i && #[trigger] vbit(l.data_@, y) != vbit(r.data_@, y) ==> vbit(x@, y % 512)
    - forall|k: int| 0 <= k < 512 && #[trigger] vbit(x@, k) ==> diff_at(l.data_@, r.data_@, k, i as int)
  loop 0 decreases nblk(l.n()) - i

fn operator< sig=/BitVector/ rust=/BitVector_lt/
  requires
    - l.wf()
    - r.wf()
  ret q
  ensures
    - q == bv_less(*l, *r)
  loop 0 invariant
    - i <= 8 * nblk(l.n())
    - j == i
    - l.n() == r.n()
    - forall|w: int| 0 <= w < i ==> #[trigger] l.data_@[w] == r.data_@[w]
  loop 0 begin
    proof { if l.data_@[i as int] != r.data_@[i as int] { assert(first_diff(l.data_@, r.data_@, i as int)); } }
  loop 0 decreases 8 * nblk(l.n()) - i

fn BitVector::empty
  ensures
    - r == (this.n() == 0)

fn BitVector::uint512_count
  requires
    - this.mem()
  ensures
    - r == nblk(this.n())

fn operator!= sig=/BitVector/ rust=/BitVector_ne/
  requires
    - l.wf()
    - r.wf()
  ret q
  ensures
    - q == !bv_same(*l, *r)

fn operator> sig=/BitVector/ rust=/BitVector_gt/
  requires
    - l.wf()
    - r.wf()
  ret q
  ensures
    - q == bv_less(*r, *l)

fn operator<= sig=/BitVector/ rust=/BitVector_le/
  requires
    - l.wf()
    - r.wf()
  ret q
  ensures
    - q == (bv_less(*l, *r) || bv_same(*l, *r))
  entry
    proof { lem_less_cases(*l, *r); }

fn operator>= sig=/BitVector/ rust=/BitVector_ge/
  requires
    - l.wf()
    - r.wf()
  ret q
  ensures
    - q == (bv_less(*r, *l) || bv_same(*l, *r))
  entry
    proof { lem_less_cases(*l, *r); }

fn make_bit_vector rust=/make_bit_vector/
  requires
    - size <= SIZE_MAX_()
  ensures
    - r.wf()
    - r.n() == size
    - forall|k: int| 0 <= k < size ==> #[trigger] r.get(k) == pred_spec(k as u64)
  loop 0 invariant
    - v.wf()
    - v.n() == size
    - x <= size
    - forall|k: int| 0 <= k < x ==> #[trigger] v.get(k) == pred_spec(k as u64)
  loop 0 decreases size - x

fn operator| sig=/\(BitVector &&, BitVector &&\)/ rust=/BitVector_or_rr/
  requires
    - old(l).wf()
    - old(r).wf()
    - old(l).n() == old(r).n()
  ret q
  ensures
    - q.wf()
    - q.n() == old(l).n()
    - forall|k: int| 0 <= k < q.n() ==> #[trigger] q.get(k) == (old(l).get(k) || old(r).get(k))

fn operator| sig=/\(BitVector &&, const BitVector &\)/ rust=/BitVector_or_rc/
  requires
    - old(l).wf()
    - r.wf()
    - old(l).n() == r.n()
  ret q
  ensures
    - q.wf()
    - q.n() == old(l).n()
    - forall|k: int| 0 <= k < q.n() ==> #[trigger] q.get(k) == (old(l).get(k) || r.get(k))

fn operator| sig=/\(const BitVector &, BitVector &&\)/ rust=/BitVector_or_cr/
  requires
    - l.wf()
    - old(r).wf()
    - l.n() == old(r).n()
  ret q
  ensures
    - q.wf()
    - q.n() == l.n()
    - forall|k: int| 0 <= k < q.n() ==> #[trigger] q.get(k) == (l.get(k) || old(r).get(k))

fn operator| sig=/\(const BitVector &, const BitVector &\)/ rust=/BitVector_or_cc/
  requires
    - l.wf()
    - r.wf()
    - l.n() == r.n()
  ret q
  ensures
    - q.wf()
    - q.n() == l.n()
    - forall|k: int| 0 <= k < q.n() ==> #[trigger] q.get(k) == (l.get(k) || r.get(k))

fn operator& sig=/\(BitVector &&, BitVector &&\)/ rust=/BitVector_and_rr/
  requires
    - old(l).wf()
    - old(r).wf()
    - old(l).n() == old(r).n()
  ret q
  ensures
    - q.wf()
    - q.n() == old(l).n()
    - forall|k: int| 0 <= k < q.n() ==> #[trigger] q.get(k) == (old(l).get(k) && old(r).get(k))

fn operator& sig=/\(BitVector &&, const BitVector &\)/ rust=/BitVector_and_rc/
  requires
    - old(l).wf()
    - r.wf()
    - old(l).n() == r.n()
  ret q
  ensures
    - q.wf()
    - q.n() == old(l).n()
    - forall|k: int| 0 <= k < q.n() ==> #[trigger] q.get(k) == (old(l).get(k) && r.get(k))

fn operator& sig=/\(const BitVector &, BitVector &&\)/ rust=/BitVector_and_cr/
  requires
    - l.wf()
    - old(r).wf()
    - l.n() == old(r).n()
  ret q
  ensures
    - q.wf()
    - q.n() == l.n()
    - forall|k: int| 0 <= k < q.n() ==> #[trigger] q.get(k) == (l.get(k) && old(r).get(k))

fn operator& sig=/\(const BitVector &, const BitVector &\)/ rust=/BitVector_and_cc/
  requires
    - l.wf()
    - r.wf()
    - l.n() == r.n()
  ret q
  ensures
    - q.wf()
    - q.n() == l.n()
    - forall|k: int| 0 <= k < q.n() ==> #[trigger] q.get(k) == (l.get(k) && r.get(k))

fn operator^ sig=/\(BitVector &&, BitVector &&\)/ rust=/BitVector_xor_rr/
  requires
    - old(l).wf()
    - old(r).wf()
    - old(l).n() == old(r).n()
  ret q
  ensures
    - q.wf()
    - q.n() == old(l).n()
    - forall|k: int| 0 <= k < q.n() ==> #[trigger] q.get(k) == (old(l).get(k) != old(r).get(k))

fn operator^ sig=/\(BitVector &&, const BitVector &\)/ rust=/BitVector_xor_rc/
  requires
    - old(l).wf()
    - r.wf()
    - old(l).n() == r.n()
  ret q
  ensures
    - q.wf()
    - q.n() == old(l).n()
    - forall|k: int| 0 <= k < q.n() ==> #[trigger] q.get(k) == (old(l).get(k) != r.get(k))

fn operator^ sig=/\(const BitVector &, BitVector &&\)/ rust=/BitVector_xor_cr/
  requires
    - l.wf()
    - old(r).wf()
    - l.n() == old(r).n()
  ret q
  ensures
    - q.wf()
    - q.n() == l.n()
    - forall|k: int| 0 <= k < q.n() ==> #[trigger] q.get(k) == (l.get(k) != old(r).get(k))

fn operator^ sig=/\(const BitVector &, const BitVector &\)/ rust=/BitVector_xor_cc/
  requires
    - l.wf()
    - r.wf()
    - l.n() == r.n()
  ret q
  ensures
    - q.wf()
    - q.n() == l.n()
    - forall|k: int| 0 <= k < q.n() ==> #[trigger] q.get(k) == (l.get(k) != r.get(k))
