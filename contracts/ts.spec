fn TimestampFlags::TimestampFlags sig=/unsigned int/ rust=/TimestampFlags_new/
  ret r
  ensures
    - r.wf()
    - r.last_seen@.len() == id_count
    - forall|i: int| 0 <= i < id_count ==> !#[trigger] r.flag(i)

fn TimestampFlags::is_set
  requires
    - this.wf()
    - id < this.last_seen@.len()
  ensures
    - r == this.flag(id as int)

fn TimestampFlags::set
  requires
    - old(this).wf()
    - id < old(this).last_seen@.len()
  ensures
    - final(this).wf()
    - final(this).last_seen@.len() == old(this).last_seen@.len()
    - forall|i: int| 0 <= i < final(this).last_seen@.len() ==> #[trigger] final(this).flag(i) == (i == id || old(this).flag(i))

fn TimestampFlags::reset_one
  requires
    - old(this).wf()
    - id < old(this).last_seen@.len()
  ensures
    - final(this).wf()
    - final(this).last_seen@.len() == old(this).last_seen@.len()
    - forall|i: int| 0 <= i < final(this).last_seen@.len() ==> #[trigger] final(this).flag(i) == (i != id && old(this).flag(i))

fn TimestampFlags::reset_all
  requires
    - old(this).wf()
  ensures
    - final(this).wf()
    - final(this).last_seen@.len() == old(this).last_seen@.len()
    - forall|i: int| 0 <= i < final(this).last_seen@.len() ==> !#[trigger] final(this).flag(i)
