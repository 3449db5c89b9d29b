arrayfield BitVector data_ u64
fn BitVector::is_set
  requires
    - this.room()
    - x < this.n()
  ensures
    - r == this.get(x as int)

fn BitVector::size
  ensures
    - r == this.n()
