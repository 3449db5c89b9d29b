fn MinIDQueue::MinIDQueue sig=/\(unsigned int\)/ rust=/MinIDQueue_new/
  ret r
  requires
    - id_count < 0x4000_0000
  ensures
    - r.wf()
    - r.n() == id_count
    - r.heap_size == 0
    - forall|i: int| !#[trigger] r.has(i)

fn MinIDQueue::MinIDQueue sig=/\(\)/ rust=/MinIDQueue_new0/
  ret r
  ensures
    - r.wf()
    - r.n() == 0
    - r.heap_size == 0

fn MinIDQueue::empty
  ensures
    - r == (this.heap_size == 0)
    - this.wf() ==> r == (forall|i: int| !#[trigger] this.has(i))
  entry
    proof { if this.wf() { if this.heap_size > 0 { let i = this.heap@[0].id as int; assert(this.has(i)); } } }

fn MinIDQueue::size
  ensures
    - r == this.heap_size

fn MinIDQueue::id_count
  requires
    - this.wf_pos()
  ensures
    - r == this.n()

fn MinIDQueue::contains_id
  requires
    - old(this).wf()
    - id < old(this).n()
  ensures
    - r == old(this).has(id as int)
    - *final(this) == *old(this)

fn MinIDQueue::clear
  requires
    - old(this).wf()
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - final(this).heap_size == 0
    - forall|i: int| !#[trigger] final(this).has(i)
  loop 0 invariant
    - i <= this.heap_size
    - this.heap@ == old(this).heap@
    - this.heap_size == old(this).heap_size
    - this.id_pos@.len() == old(this).id_pos@.len()
    - forall|k: int| 0 <= k < this.id_pos@.len() && #[trigger] this.id_pos@[k] != 0xFFFF_FFFFu32 ==> this.id_pos@[k] == old(this).id_pos@[k] && this.id_pos@[k] >= i
  loop 0 decreases this.heap_size - i

fn MinIDQueue::get_key
  requires
    - this.wf()
    - this.has(id as int)
  ensures
    - r == this.key(id as int)

fn MinIDQueue::peek
  requires
    - this.wf()
    - this.heap_size > 0
  ensures
    - this.has(r.id as int)
    - r.key == this.key(r.id as int)
    - forall|i: int| #[trigger] this.has(i) ==> r.key <= this.key(i)
  entry
    proof { assert forall|i: int| #[trigger] this.has(i) implies this.heap@[0].key <= this.key(i) by { lemma_root_min(this, this.id_pos@[i] as int); } }

fn MinIDQueue::pop
  attr verifier::spinoff_prover
  requires
    - old(this).wf()
    - old(this).heap_size > 0
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - final(this).heap_size == old(this).heap_size - 1
    - old(this).has(r.id as int) && r.id < old(this).n()
    - r.key == old(this).key(r.id as int)
    - forall|i: int| #[trigger] old(this).has(i) ==> r.key <= old(this).key(i)
    - forall|i: int| #[trigger] final(this).has(i) == (old(this).has(i) && i != r.id)
    - forall|i: int| #[trigger] final(this).has(i) ==> final(this).key(i) == old(this).key(i)
  entry
    proof { assert forall|i: int| #[trigger] this.has(i) implies this.heap@[0].key <= this.key(i) by { lemma_root_min(this, this.id_pos@[i] as int); } }

fn MinIDQueue::push
  requires
    - old(this).wf()
    - p.id < old(this).n()
    - !old(this).has(p.id as int)
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - final(this).heap_size == old(this).heap_size + 1
    - forall|i: int| #![trigger final(this).has(i)] #![trigger old(this).has(i)] final(this).has(i) == (old(this).has(i) || i == p.id)
    - forall|i: int| #![trigger final(this).has(i)] #![trigger final(this).key(i)] final(this).has(i) ==> final(this).key(i) == (if i == p.id { p.key } else { old(this).key(i) })
  entry
    proof { lemma_has_room(this, p.id as int); }

fn MinIDQueue::decrease_key
  requires
    - old(this).wf()
    - old(this).has(p.id as int)
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - final(this).heap_size == old(this).heap_size
    - r == (p.key < old(this).key(p.id as int))
    - forall|i: int| #[trigger] final(this).has(i) == old(this).has(i)
    - forall|i: int| #[trigger] final(this).has(i) ==> final(this).key(i) == (if i == p.id && p.key < old(this).key(i) { p.key } else { old(this).key(i) })

fn MinIDQueue::increase_key
  requires
    - old(this).wf()
    - old(this).has(p.id as int)
  ensures
    - final(this).wf()
    - final(this).n() == old(this).n()
    - final(this).heap_size == old(this).heap_size
    - r == (p.key > old(this).key(p.id as int))
    - forall|i: int| #[trigger] final(this).has(i) == old(this).has(i)
    - forall|i: int| #[trigger] final(this).has(i) ==> final(this).key(i) == (if i == p.id && p.key > old(this).key(i) { p.key } else { old(this).key(i) })

fn MinIDQueue::move_up_in_tree
  attr verifier::spinoff_prover
  requires
    - old(this).wf_pos()
    - pos < old(this).heap_size
    - old(this).order_but_up(pos as int)
  ensures
    - final(this).wf()
    - final(this).same_map(old(this))
    - final(this).same_tail(old(this))
  loop 0 invariant
    - this.wf_pos()
    - pos < this.heap_size
    - this.order_but_up(pos as int)
    - this.same_map(old(this))
    - this.same_tail(old(this))
  loop 0 decreases pos

fn MinIDQueue::move_down_in_tree
  attr verifier::spinoff_prover
  requires
    - old(this).wf_pos()
    - pos < old(this).heap_size || (pos == 0 && old(this).heap_size == 0)
    - old(this).order_but_down(pos as int)
  ensures
    - final(this).wf()
    - final(this).same_map(old(this))
    - final(this).same_tail(old(this))
  loop 0 invariant
    - this.wf_pos()
    - pos < this.heap_size || (pos == 0 && this.heap_size == 0)
    - this.order_but_down(pos as int)
    - this.same_map(old(this))
    - this.same_tail(old(this))
  loop 0 decreases this.heap_size - pos
  loop 1 invariant
    - first_child == 4 * pos + 1
    - first_child < this.heap_size
    - first_child <= smallest_child < c
    - smallest_child <= 4 * pos + 4
    - smallest_child < this.heap_size
    - c >= first_child + 1
    - forall|k: int| first_child <= k < c && k <= 4 * pos + 4 && k < this.heap_size ==> this.heap@[smallest_child as int].key <= #[trigger] this.heap@[k].key
  loop 1 decreases 4 * pos + 5 - c
