sharefield LocalIDMapper bits_ Vec<u64>
fn uint64_bit_select
  requires
    - n < wcount(word, 64)
  ensures
    - r < 64
    - wbit(word, r as int)
    - wcount(word, r as int) == n
  entry
    let ghost w0 = word;
    let ghost n0 = n;
    let ghost st = sel_stages(word, n as int);
    proof { lem_sel_stages(word, n as int); }
  loop 0 before
    proof { assert(word == st.0 && n == st.1 && r == st.2); }
  loop 0 invariant
    - n < wcount(word, 64)
    - n <= 64
    - r == st.2
    - forall|p: int| 0 <= p < 64 && wbit(word, p) && #[trigger] wcount(word, p) == n ==> wbit(st.0, p) && wcount(st.0, p) == st.1
  loop 0 decreases n
  loop 0 begin
    let ghost wb = word;
    proof { lem_clear_low(word); }
  loop 0 after
    proof { lem_first_bit(word); lem_sel_back(w0, n0 as int); }

fn uint512_bit_select
  pointers block into DT
  requires
    - block + 8 <= DT@.len() <= 0x100_0000_0000_0000
    - count(DT@, 64 * block as int) + n < count(DT@, 64 * (block + 8))
  ensures
    - r < 512
    - vbit(DT@, 64 * block + r)
    - count(DT@, 64 * block + r) == count(DT@, 64 * block as int) + n
  loop 0 invariant
    - block_0 <= block <= block_0 + 7
    - i == block - block_0
    - r == 64 * (block - block_0)
    - n <= n_0
    - count(DT@, 64 * block as int) + n == count(DT@, 64 * block_0 as int) + n_0
  loop 0 decreases block_0 + 8 - block
  loop 0 begin
    proof {
        lem_count_word(DT@, block as int);
        lem_word_pos(DT@, block as int);
        lem_count_le(DT@, 64 * block as int);
    }

fn bit_select
  hide count vbit wcount
  exit
    proof { let x = r - 512 * uint512_skipped; assert(vbit(DT@, 64 * data + x)); assert(count(DT@, 64 * data + x) == n); assert(64 * data + x == 64 * data_0 + r); }
  pointers uint512_rank into RK
  pointers data into DT
  requires
    - uint512_count >= 1
    - data == 8 * uint512_rank
    - uint512_rank + uint512_count < RK@.len()
    - 8 * (uint512_rank + uint512_count) <= DT@.len() <= 0x100_0000_0000_0000
    - forall|j: int| 0 <= j < RK@.len() ==> #[trigger] RK@[j] == count(DT@, 512 * j)
    - RK@[uint512_rank as int] <= n < RK@[uint512_rank + uint512_count]
  ensures
    - r < 512 * uint512_count
    - vbit(DT@, 64 * data + r)
    - count(DT@, 64 * data + r) == n
  loop 0 invariant
    - uint512_rank_0 <= uint512_rank
    - uint512_count >= 1
    - uint512_rank + uint512_count == uint512_rank_0 + uint512_count_0
    - data == 8 * uint512_rank
    - uint512_skipped == uint512_rank - uint512_rank_0
    - RK@[uint512_rank as int] <= n < RK@[uint512_rank + uint512_count]
  loop 0 decreases uint512_count
  loop 0 after
    proof { assert(RK@[uint512_rank + 1] == count(DT@, 512 * (uint512_rank + 1))); lem_count_block(DT@, uint512_rank as int); assert(64 * data == 64 * data_0 + 512 * uint512_skipped); assert(RK@[uint512_rank as int] == count(DT@, 64 * data)); assert(RK@[uint512_rank + 1] == count(DT@, 64 * (data + 8))); }
  loop 1 invariant
    - 1 <= step
    - step < 2 * uint512_count
    - step == 1 || (step % 2 == 0 && step / 2 < uint512_count && RK@[uint512_rank + step / 2] <= n)
  loop 1 decreases 2 * uint512_count - step
  loop 1 begin
    proof { assert((step << 1) == 2 * step) by(bit_vector) requires step < 0x1000_0000_0000_0000u64; }
  loop 1 after
    proof { assert((step >> 1) == step / 2) by(bit_vector); }

fn LocalIDMapper::LocalIDMapper sig=/void \(\)/ rust=/LocalIDMapper_new/
  ensures
    - r.bit_count_ == 0
    - r.rank_@.len() == 0

fn LocalIDMapper::LocalIDMapper sig=/const uint64_t \*/ rust=/LocalIDMapper_build/
  sharedptr bits Vec<u64>
  requires
    - !bits.null()
    - bit_count <= SIZE_MAX_()
    - bits.val()@.len() == 8 * nblk(bit_count as int)
    - zero_from(bits.val()@, bit_count as int)
  ensures
    - r.mwf()
    - r.bit_count_ == bit_count
    - r.bits_ == *bits
  entry
    let ghost d = bits.val()@;
  loop 0 invariant
    - this.bits_ == *bits
    - this.bit_count_ == bit_count
    - this.rank_@.len() == nblk(bit_count as int) + 1
    - j <= nblk(bit_count as int)
    - i == 8 * j
    - s == count(d, 512 * j)
    - s <= 512 * j
    - forall|k: int| 0 <= k < j ==> #[trigger] this.rank_@[k] == count(d, 512 * k)
  loop 0 decreases nblk(bit_count as int) - j
  loop 0 begin
    proof { lem_count_block(d, j as int); }

fn LocalIDMapper::LocalIDMapper sig=/BitVector/ rust=/LocalIDMapper_from/
  requires
    - vec.wf()
  ensures
    - r.mwf()
    - r.bit_count_ == vec.size_
    - r.bits() == vec.data_@

fn LocalIDMapper::global_id_count
  ensures
    - r == this.bit_count_

fn LocalIDMapper::local_id_count
  requires
    - this.mwf() || this.rank_@.len() == 0
  ensures
    - this.mwf() ==> r == count(this.bits(), this.bit_count_ as int)
    - this.rank_@.len() == 0 ==> r == 0
  entry
    proof { if this.mwf() { lem_total(*this); } }

fn LocalIDMapper::is_global_id_mapped
  requires
    - this.mwf()
    - global_id < this.bit_count_
  ensures
    - r == vbit(this.bits(), global_id as int)

fn LocalIDMapper::to_local sig=/\(uint64_t, uint64_t\)/ rust=/LocalIDMapper_to_local2/
  requires
    - this.mwf()
  ensures
    - r == if global_id < this.bit_count_ && vbit(this.bits(), global_id as int) { count(this.bits(), global_id as int) } else { invalid as int }
  entry
    let ghost d = this.bits();
    proof { if global_id < this.bit_count_ { lem_local(*this, global_id); } }
  loop 0 invariant
    - 8 * uint512_index <= i <= uint64_index
    - local_id == count(d, 64 * i as int)
  loop 0 decreases uint64_index - i
  loop 0 begin
    proof { lem_count_word(d, i as int); lem_count_le(d, 64 * i as int); }
  loop 0 after
    proof { lem_count_le(d, 64 * i as int); }

fn LocalIDMapper::to_local sig=/\(uint64_t\)/ rust=/LocalIDMapper_to_local1/
  requires
    - this.mwf()
    - global_id < this.bit_count_
    - vbit(this.bits(), global_id as int)
  ensures
    - r == count(this.bits(), global_id as int)
  entry
    let ghost d = this.bits();
    proof { lem_local(*this, global_id); }
  loop 0 invariant
    - 8 * uint512_index <= i <= uint64_index
    - local_id == count(d, 64 * i as int)
  loop 0 decreases uint64_index - i
  loop 0 begin
    proof { lem_count_word(d, i as int); lem_count_le(d, 64 * i as int); }
  loop 0 after
    proof { lem_count_le(d, 64 * i as int); }

fn IDMapper::IDMapper sig=/void \(\)/ rust=/IDMapper_new/
  ensures
    - r.base_.bit_count_ == 0
    - r.base_.rank_@.len() == 0

fn IDMapper::IDMapper sig=/const uint64_t \*/ rust=/IDMapper_build/
  sharedptr bits Vec<u64>
  requires
    - !bits.null()
    - bit_count <= SIZE_MAX_()
    - bits.val()@.len() == 8 * nblk(bit_count as int)
    - zero_from(bits.val()@, bit_count as int)
    - count(bits.val()@, bit_count as int) < 0xffff_ff00
  ensures
    - r.iwf()
    - r.base_.bit_count_ == bit_count
    - r.base_.bits_ == *bits
  entry
    let ghost d = bits.val()@;
    proof { lem_total(this.base_); }
  loop 0 invariant
    - this.base_.mwf()
    - this.base_.bits_ == *bits
    - this.base_.bit_count_ == bit_count
    - block <= nblk(bit_count as int)
    - this.select_@.len() == (count(d, bit_count as int) + 255) / 256
    - select_value == 256 * select_query
    - select_query <= this.select_@.len()
    - select_query < this.select_@.len() ==> this.base_.rank_@[block as int] <= select_value
    - forall|q: int| 0 <= q < select_query ==> #[trigger] this.select_@[q] < nblk(bit_count as int) && count(d, 512 * this.select_@[q]) <= 256 * q
  loop 0 decreases nblk(bit_count as int) - block
  loop 1 invariant
    - this.base_.mwf()
    - this.base_.bits_ == *bits
    - this.base_.bit_count_ == bit_count
    - this.select_@.len() == (count(d, bit_count as int) + 255) / 256
    - select_value == 256 * select_query
    - select_query <= this.select_@.len()
    - select_query < this.select_@.len() ==> this.base_.rank_@[block as int] <= select_value
    - forall|q: int| 0 <= q < select_query ==> #[trigger] this.select_@[q] < nblk(bit_count as int) && count(d, 512 * this.select_@[q]) <= 256 * q
  loop 1 decreases this.select_@.len() - select_query
  loop 1 begin
    proof { lem_rank_total(this.base_, block as int + 1); lem_shl8(add_(select_query, 1)); }

fn IDMapper::IDMapper sig=/BitVector/ rust=/IDMapper_from/
  requires
    - vec.wf()
    - count(vec.data_@, vec.n()) < 0xffff_ff00
  ensures
    - r.iwf()
    - r.base_.bit_count_ == vec.size_
    - r.base_.bits() == vec.data_@

fn IDMapper::to_global
  requires
    - this.iwf()
    - local_id < count(this.base_.bits(), this.base_.bit_count_ as int)
  ensures
    - r < this.base_.bit_count_
    - vbit(this.base_.bits(), r as int)
    - count(this.base_.bits(), r as int) == local_id
  entry
    proof { lem_global(*this, local_id); }
