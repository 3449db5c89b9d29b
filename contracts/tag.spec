cstrings
functor RkGetKey get_key
functor RkGetValue get_value
fn TagMap::compute_char_hash
  ensures
    - r == ch(c)
    - r < 16
fn TagMap::compute_hash
  requires
    - !str.null()
    - str.str().len() < 0xFFFF_FFFF
  ensures
    - r == hs(str.str())
    - r < 4096
fn TagMap::TagMap
  ensures
    - r.wf()
    - forall|k: Seq<i8>| !(#[trigger] r.has_key(k))
fn TagMap::clear
  requires
    - old(this).wf()
  ensures
    - final(this).wf()
    - forall|h: int| 0 <= h < 4096 ==> #[trigger] final(this).entry_end@[h] == 0
    - forall|k: Seq<i8>| !(#[trigger] final(this).has_key(k))
  loop 0 invariant
    - idx_x <= this.hash_element_list@.len()
    - this.hash_element_list == old(this).hash_element_list && this.entry == old(this).entry
    - this.entry_begin@.len() == 4096 && this.entry_end@.len() == 4096
    - forall|h: int| 0 <= h < 4096 && #[trigger] this.entry_end@[h] != 0 ==> old(this).entry_end@[h] != 0
    - forall|j: int| 0 <= j < idx_x ==> this.entry_end@[(#[trigger] this.hash_element_list@[j] >> 32) as int] == 0
  loop 0 decreases this.hash_element_list@.len() - idx_x
  exit
    proof { lem_hs(); }
fn TagMap::build
  requires
    - old(this).wf()
    - forall|i: int| 0 <= i < key_value_count ==> !(#[trigger] fkey(i)).null() && fkey(i).str().len() < 0xFFFF_FFFF
  ensures
    - final(this).wf()
    - final(this).n() == key_value_count
    - forall|k: Seq<i8>, v: RkCStr| #[trigger] final(this).has_pair(k, v) == given(key_value_count as int, k, v)
    - forall|k: Seq<i8>| #[trigger] final(this).has_key(k) == given_key(key_value_count as int, k)
  entry
    let ghost cnt = key_value_count; let ghost mut before = Seq::<u64>::empty(); let ghost mut list = Seq::<u64>::empty();
    proof { lem_hs(); lem_pack(); }
  loop 0 invariant
    - i <= cnt
    - this.hash_element_list@.len() == cnt
    - this.entry_begin@.len() == 4096 && this.entry_end@.len() == 4096
    - forall|h: int| 0 <= h < 4096 ==> #[trigger] this.entry_end@[h] == 0
    - forall|j: int| 0 <= j < i ==> packed(#[trigger] this.hash_element_list@[j], j)
  loop 0 decreases cnt - i
  loop 0 after
    proof { before = this.hash_element_list@; }
  loop 1 before
    proof { list = this.hash_element_list@; lem_sorted(before, list, cnt as int); }
  loop 1 invariant
    - i <= cnt
    - this.hash_element_list@ == list
    - this.entry@.len() == cnt
    - this.entry_begin@.len() == 4096 && this.entry_end@.len() == 4096
    - prev_hash == if i == 0 { 4096 } else { hi(list[i - 1]) }
    - forall|j: int| 0 <= j < i ==> this.entry_begin@[hi(#[trigger] list[j])] <= j < this.entry_end@[hi(list[j])]
    - forall|h: int| 0 <= h < 4096 && #[trigger] this.entry_end@[h] != 0 ==> this.entry_end@[h] <= i && hi(list[this.entry_end@[h] - 1]) == h
    - forall|j: int| 0 <= j < i ==> (#[trigger] this.entry@[j]).key == fkey(lo(list[j])) && this.entry@[j].value == fval(lo(list[j]))
  loop 1 decreases cnt - i
  loop 1 begin
    proof { lem_parts(list[i as int]); assert(forall|j: int| 0 <= j < i ==> hi(#[trigger] list[j]) <= hi(list[i as int])); assert(i > 0 ==> hi(list[i - 1]) <= hi(list[i as int])); }
  exit
    proof { lem_built(this, before, list, cnt as int); }
fn TagMap::operator[]
  requires
    - this.wf()
    - !key.null()
    - key.str().len() < 0xFFFF_FFFF
  ensures
    - this.has_pair(key.str(), r) || (!this.has_key(key.str()) && r.null())
  entry
    proof { lem_hs(); }
  loop 0 invariant
    - i >= this.entry_begin@[hs(key.str())]
    - forall|j: int| j < i ==> !(#[trigger] this.at(key.str(), j))
  loop 0 decreases this.entry_end@[hs(key.str())] - i
  loop 0 begin
    proof { assert(this.entry@[i as int].key.str() == key.str() ==> this.at(key.str(), i as int)); }
fn TagMap::empty
  ensures
    - r == (this.n() == 0)
fn TagMap::size
  requires
    - this.n() <= 0xFFFF_FFFF
  ensures
    - r == this.n()
