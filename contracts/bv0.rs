// bit x of an array of 64 bit words
pub open spec fn wbit(w: u64, b: int) -> bool { (w & (1u64 << (b as u64))) != 0 }
pub open spec fn vbit(d: Seq<u64>, x: int) -> bool { wbit(d[x / 64], x % 64) }
impl BitVector {
    pub open spec fn n(&self) -> int { self.size_ as int }
    pub open spec fn get(&self, x: int) -> bool { vbit(self.data_@, x) }
    pub open spec fn room(&self) -> bool { self.size_ <= 64 * self.data_@.len() }
}
