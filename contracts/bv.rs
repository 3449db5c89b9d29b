// ---- bit x of an array of 64 bit words: wbit/vbit are in bv0.rs
pub open spec fn eqb(a: u64, b: u64, n: int) -> bool { forall|k: int| 0 <= k < n ==> wbit(a, k) == wbit(b, k) }
pub proof fn lem_wbit_not(a: u64, k: int) requires 0 <= k < 64 ensures wbit(!a, k) == !wbit(a, k)
{ let q = k as u64; assert(((!a) & (1u64 << q)) != 0 <==> !((a & (1u64 << q)) != 0)) by(bit_vector) requires q < 64; }
pub proof fn lem_wbit_ops(a: u64, b: u64, k: int) requires 0 <= k < 64
    ensures wbit(a & b, k) == (wbit(a, k) && wbit(b, k)), wbit(a | b, k) == (wbit(a, k) || wbit(b, k)), wbit(a ^ b, k) == (wbit(a, k) != wbit(b, k))
{
    let q = k as u64;
    assert(((a & b) & (1u64 << q)) != 0 <==> ((a & (1u64 << q)) != 0 && (b & (1u64 << q)) != 0)) by(bit_vector) requires q < 64;
    assert(((a | b) & (1u64 << q)) != 0 <==> ((a & (1u64 << q)) != 0 || (b & (1u64 << q)) != 0)) by(bit_vector) requires q < 64;
    assert(((a ^ b) & (1u64 << q)) != 0 <==> ((a & (1u64 << q)) != 0) != ((b & (1u64 << q)) != 0)) by(bit_vector) requires q < 64;
}
pub proof fn lem_wbit_zero(k: int) requires 0 <= k < 64 ensures !wbit(0, k), wbit(0xffff_ffff_ffff_ffff, k)
{ let q = k as u64; assert((0u64 & (1u64 << q)) == 0) by(bit_vector); assert((0xffff_ffff_ffff_ffffu64 & (1u64 << q)) != 0) by(bit_vector) requires q < 64; }
pub proof fn lem_wbit_one(x: u64, k: int) requires x < 64, 0 <= k < 64 ensures wbit(1u64 << x, k) == (k == x)
{ let q = k as u64; assert(((1u64 << x) & (1u64 << q)) != 0 <==> q == x) by(bit_vector) requires q < 64, x < 64; }
pub proof fn lem_wbit_low(x: u64, k: int) requires 1 <= x < 64, 0 <= k < 64 ensures (1u64 << x) >= 1, wbit(((1u64 << x) - 1) as u64, k) == (k < x)
{
    let q = k as u64;
    assert((1u64 << x) >= 1) by(bit_vector) requires x < 64;
    assert(((sub(1u64 << x, 1)) & (1u64 << q)) != 0 <==> q < x) by(bit_vector) requires q < 64, x < 64;
}
proof fn lem_eq_step(a: u64, b: u64, n: u64)
    requires 1 <= n < 64, (a << ((64 - n) as u64)) == (b << ((64 - n) as u64)), wbit(a, n as int) == wbit(b, n as int)
    ensures (a << ((63 - n) as u64)) == (b << ((63 - n) as u64))
{
    assert((a << ((63-n) as u64)) == (b << ((63-n) as u64))) by(bit_vector)
        requires 1 <= n < 64, (a << ((64-n) as u64)) == (b << ((64-n) as u64)), (a & (1u64<<n)) != 0 <==> (b & (1u64<<n)) != 0;
}
proof fn lem_eq_low(a: u64, b: u64, n: u64)
    requires 1 <= n <= 64, eqb(a, b, 64)
    ensures (a << ((64 - n) as u64)) == (b << ((64 - n) as u64))
    decreases n
{
    assert(wbit(a, 0) == wbit(b, 0));
    assert(wbit(a, n - 1) == wbit(b, n - 1));
    if n == 1 {
        assert((a << 63) == (b << 63)) by(bit_vector) requires (a & (1u64 << 0u64)) != 0 <==> (b & (1u64 << 0u64)) != 0;
    } else { lem_eq_low(a, b, (n - 1) as u64); lem_eq_step(a, b, (n - 1) as u64); }
}
pub proof fn lem_word_eq(a: u64, b: u64) requires eqb(a, b, 64) ensures a == b
{ lem_eq_low(a, b, 64); assert(a == b) by(bit_vector) requires (a << 0u64) == (b << 0u64); }

// ---- blocks of eight words (the gcc vector type used by the implementation)
pub fn v8_load(d: &Vec<u64>, i: u64) -> (r: [u64; 8])
    requires 8 * i + 8 <= d@.len(),
    ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r@[k] == d@[8 * i + k],
        forall|x: int| 512 * i <= x < 512 * i + 512 ==> #[trigger] vbit(d@, x) == vbit(r@, x - 512 * i),
        forall|k: int| 0 <= k < 512 ==> #[trigger] vbit(r@, k) == vbit(d@, 512 * i + k),
{
    let n = d.len(); let b = (8 * i) as usize; let r = [d[b], d[b + 1], d[b + 2], d[b + 3], d[b + 4], d[b + 5], d[b + 6], d[b + 7]];
    proof {
        assert forall|k: int| 0 <= k < 512 implies #[trigger] vbit(r@, k) == vbit(d@, 512 * i + k) by { assert((512 * i + k) / 64 == 8 * i + k / 64); assert((512 * i + k) % 64 == k % 64); }
        assert forall|x: int| 512 * i <= x < 512 * i + 512 implies #[trigger] vbit(d@, x) == vbit(r@, x - 512 * i) by { assert(vbit(r@, x - 512 * i) == vbit(d@, 512 * i + (x - 512 * i))); }
    }
    r
}
pub fn v8_store(d: &mut Vec<u64>, i: u64, v: [u64; 8])
    requires 8 * i + 8 <= old(d)@.len(),
    ensures final(d)@.len() == old(d)@.len(),
        forall|k: int| 0 <= k < old(d)@.len() ==> #[trigger] final(d)@[k] == if 8 * i <= k < 8 * i + 8 { v@[k - 8 * i] } else { old(d)@[k] },
        forall|x: int| 0 <= x < 64 * old(d)@.len() ==> #[trigger] vbit(final(d)@, x) == if 512 * i <= x < 512 * i + 512 { vbit(v@, x - 512 * i) } else { vbit(old(d)@, x) },
{
    let n = d.len();
    let b = (8 * i) as usize;
    d.set(b, v[0]); d.set(b + 1, v[1]); d.set(b + 2, v[2]); d.set(b + 3, v[3]);
    d.set(b + 4, v[4]); d.set(b + 5, v[5]); d.set(b + 6, v[6]); d.set(b + 7, v[7]);
    proof {
        assert forall|x: int| 0 <= x < 64 * old(d)@.len() implies #[trigger] vbit(d@, x) == if 512 * i <= x < 512 * i + 512 { vbit(v@, x - 512 * i) } else { vbit(old(d)@, x) } by {
            if 512 * i <= x < 512 * i + 512 { assert((x - 512 * i) / 64 == x / 64 - 8 * i); assert((x - 512 * i) % 64 == x % 64); }
        }
    }
}
pub fn v8_not(a: [u64; 8]) -> (r: [u64; 8])
    ensures forall|k: int| #![trigger vbit(r@, k)] #![trigger vbit(a@, k)] 0 <= k < 512 ==> vbit(r@, k) == !vbit(a@, k),
        forall|k: int| 0 <= k < 8 && a@[k] == 0 ==> #[trigger] r@[k] == 0xffff_ffff_ffff_ffff,
{ proof { assert(!0u64 == 0xffff_ffff_ffff_ffff) by(bit_vector); } let r = [!a[0], !a[1], !a[2], !a[3], !a[4], !a[5], !a[6], !a[7]]; proof { lem_not_bits(a@, r@, 0, 8); } r }
pub fn v8_and(a: [u64; 8], b: [u64; 8]) -> (r: [u64; 8])
    ensures forall|k: int| #![trigger vbit(r@, k)] #![trigger vbit(a@, k)] #![trigger vbit(b@, k)] 0 <= k < 512 ==> vbit(r@, k) == (vbit(a@, k) && vbit(b@, k)),
{ let r = [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4], a[5] & b[5], a[6] & b[6], a[7] & b[7]]; proof { lem_word_bits(a@, b@, r@, 0, 8, 0); } r }
pub fn v8_or(a: [u64; 8], b: [u64; 8]) -> (r: [u64; 8])
    ensures forall|k: int| #![trigger vbit(r@, k)] #![trigger vbit(a@, k)] #![trigger vbit(b@, k)] 0 <= k < 512 ==> vbit(r@, k) == (vbit(a@, k) || vbit(b@, k)),
{ let r = [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4], a[5] | b[5], a[6] | b[6], a[7] | b[7]]; proof { lem_word_bits(a@, b@, r@, 0, 8, 1); } r }
pub fn v8_xor(a: [u64; 8], b: [u64; 8]) -> (r: [u64; 8])
    ensures forall|k: int| #![trigger vbit(r@, k)] #![trigger vbit(a@, k)] #![trigger vbit(b@, k)] 0 <= k < 512 ==> vbit(r@, k) == (vbit(a@, k) != vbit(b@, k)),
{ let r = [a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3], a[4] ^ b[4], a[5] ^ b[5], a[6] ^ b[6], a[7] ^ b[7]]; proof { lem_word_bits(a@, b@, r@, 0, 8, 2); } r }
// a block given by eight words
pub fn v8_const(v: [u64; 8]) -> (r: [u64; 8])
    ensures r == v, (forall|w: int| 0 <= w < 8 ==> v@[w] == 0) ==> (forall|k: int| 0 <= k < 512 ==> !(#[trigger] vbit(r@, k))),
{ proof { if forall|w: int| 0 <= w < 8 ==> v@[w] == 0 { lem_const_bits(v@, 0, 8, false); } } v }

// ---- owned memory
// aligned_alloc: n bytes with arbitrary content; allocation failure stops the program
#[verifier::external_body]
pub fn rk_alloc_u64(n: u64) -> (r: Vec<u64>) ensures r@.len() == n / 8 { unimplemented!() }
#[verifier::external_body]
pub fn rk_alloc_failed() ensures false { unimplemented!() }
// a null pointer owns nothing; a non-null pointer may own nothing too
#[verifier::external_body]
pub fn rk_is_null(d: &Vec<u64>) -> (r: bool) ensures r ==> d@.len() == 0 { unimplemented!() }
// the value of an owning pointer is copied: the source must not be relied on afterwards
#[verifier::external_body]
pub fn rk_move_out(d: &mut Vec<u64>) -> (r: Vec<u64>) ensures r@ == old(d)@ { unimplemented!() }

// ---- the bit vector
pub open spec fn nblk(n: int) -> int { (n + 511) / 512 }
pub open spec fn SIZE_MAX_() -> int { 0x4000_0000_0000_0000 }
pub open spec fn zero_from(d: Seq<u64>, n: int) -> bool { forall|x: int| n <= x < 64 * d.len() ==> !(#[trigger] vbit(d, x)) }
pub open spec fn same_bits(a: Seq<u64>, b: Seq<u64>, n: int) -> bool { forall|x: int| 0 <= x < n ==> #[trigger] vbit(a, x) == vbit(b, x) }
impl BitVector {
    // memory of the right size (the bits behind the end may hold anything)
    pub open spec fn mem(&self) -> bool { self.size_ <= SIZE_MAX_() && self.data_@.len() == 8 * nblk(self.n()) }
    // the invariant every public operation establishes
    pub open spec fn wf(&self) -> bool { self.mem() && zero_from(self.data_@, self.n()) }
}
// the mask of the bits of the last block that belong to a vector of n bits
pub open spec fn in_mask(n: int, k: int) -> bool { (n != 0 && n % 512 == 0) || k < n % 512 }
pub open spec fn is_mask(m: [u64; 8], n: int) -> bool { forall|k: int| 0 <= k < 512 ==> #[trigger] vbit(m@, k) == in_mask(n, k) }

pub proof fn lem_split(x: int) requires 0 <= x ensures 0 <= x / 64, 0 <= x % 64 < 64, x == 64 * (x / 64) + x % 64 {}
// word-wise facts lifted to bits
pub proof fn lem_not_bits(a: Seq<u64>, b: Seq<u64>, from: int, to: int)
    requires 0 <= from, to <= a.len(), to <= b.len(), forall|w: int| from <= w < to ==> #[trigger] b[w] == !a[w]
    ensures forall|x: int| 64 * from <= x < 64 * to ==> #[trigger] vbit(b, x) == !vbit(a, x)
{
    assert forall|x: int| 64 * from <= x < 64 * to implies #[trigger] vbit(b, x) == !vbit(a, x) by { lem_wbit_not(a[x / 64], x % 64); }
}
pub proof fn lem_word_bits(a: Seq<u64>, b: Seq<u64>, c: Seq<u64>, from: int, to: int, op: int)
    requires 0 <= from, to <= a.len(), to <= b.len(), to <= c.len(),
        forall|w: int| from <= w < to ==> #[trigger] c[w] == (if op == 0 { a[w] & b[w] } else if op == 1 { a[w] | b[w] } else { a[w] ^ b[w] })
    ensures forall|x: int| 64 * from <= x < 64 * to ==> #[trigger] vbit(c, x) == (if op == 0 { vbit(a, x) && vbit(b, x) } else if op == 1 { vbit(a, x) || vbit(b, x) } else { vbit(a, x) != vbit(b, x) })
{
    assert forall|x: int| 64 * from <= x < 64 * to implies #[trigger] vbit(c, x) == (if op == 0 { vbit(a, x) && vbit(b, x) } else if op == 1 { vbit(a, x) || vbit(b, x) } else { vbit(a, x) != vbit(b, x) }) by { lem_wbit_ops(a[x / 64], b[x / 64], x % 64); }
}
pub proof fn lem_const_bits(d: Seq<u64>, from: int, to: int, one: bool)
    requires 0 <= from, to <= d.len(), forall|w: int| from <= w < to ==> #[trigger] d[w] == (if one { 0xffff_ffff_ffff_ffffu64 } else { 0 })
    ensures forall|x: int| 64 * from <= x < 64 * to ==> #[trigger] vbit(d, x) == one
{
    assert forall|x: int| 64 * from <= x < 64 * to implies #[trigger] vbit(d, x) == one by { lem_wbit_zero(x % 64); }
}
pub proof fn lem_any(x: Seq<u64>)
    requires x.len() == 8
    ensures ((((x[0] | x[1]) | (x[4] | x[5])) | ((x[2] | x[3]) | (x[6] | x[7]))) != 0) == (exists|k: int| 0 <= k < 512 && #[trigger] vbit(x, k))
{
    let v = ((x[0] | x[1]) | (x[4] | x[5])) | ((x[2] | x[3]) | (x[6] | x[7]));
    let (a, b, c, d, e, f, g, h) = (x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]);
    assert(v == 0 <==> a == 0 && b == 0 && c == 0 && d == 0 && e == 0 && f == 0 && g == 0 && h == 0) by(bit_vector)
        requires v == ((a | b) | (e | f)) | ((c | d) | (g | h));
    if v != 0 {
        let w = if a != 0 { 0 } else if b != 0 { 1 } else if c != 0 { 2 } else if d != 0 { 3 } else if e != 0 { 4 } else if f != 0 { 5 } else if g != 0 { 6int } else { 7int };
        assert(x[w] != 0);
        if forall|k: int| 0 <= k < 64 ==> !wbit(x[w], k) {
            assert forall|k: int| 0 <= k < 64 implies wbit(x[w], k) == wbit(0, k) by { lem_wbit_zero(k); }
            lem_word_eq(x[w], 0);
        }
        let k = choose|k: int| 0 <= k < 64 && wbit(x[w], k);
        assert(vbit(x, 64 * w + k)) by { assert((64 * w + k) / 64 == w && (64 * w + k) % 64 == k); }
    } else {
        assert forall|k: int| 0 <= k < 512 implies !(#[trigger] vbit(x, k)) by { lem_wbit_zero(k % 64); }
    }
}
pub proof fn lem_all(x: Seq<u64>)
    requires x.len() == 8
    ensures ((((x[0] & x[1]) & (x[4] & x[5])) & ((x[2] & x[3]) & (x[6] & x[7]))) == 0xffff_ffff_ffff_ffff) == (forall|k: int| 0 <= k < 512 ==> #[trigger] vbit(x, k))
{
    let v = ((x[0] & x[1]) & (x[4] & x[5])) & ((x[2] & x[3]) & (x[6] & x[7]));
    let (a, b, c, d, e, f, g, h) = (x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]);
    let o = 0xffff_ffff_ffff_ffffu64;
    assert(v == o <==> a == o && b == o && c == o && d == o && e == o && f == o && g == o && h == o) by(bit_vector)
        requires v == ((a & b) & (e & f)) & ((c & d) & (g & h)), o == 0xffff_ffff_ffff_ffffu64;
    if v != o {
        let w = if a != o { 0 } else if b != o { 1 } else if c != o { 2 } else if d != o { 3 } else if e != o { 4 } else if f != o { 5 } else if g != o { 6int } else { 7int };
        if forall|k: int| 0 <= k < 64 ==> wbit(x[w], k) {
            assert forall|k: int| 0 <= k < 64 implies wbit(x[w], k) == wbit(o, k) by { lem_wbit_zero(k); }
            lem_word_eq(x[w], o);
        }
        let k = choose|k: int| 0 <= k < 64 && !wbit(x[w], k);
        assert(!vbit(x, 64 * w + k)) by { assert((64 * w + k) / 64 == w && (64 * w + k) % 64 == k); }
    } else {
        assert forall|k: int| 0 <= k < 512 implies #[trigger] vbit(x, k) by { lem_wbit_zero(k % 64); }
    }
}
pub proof fn lem_shl1(n: u64)
    requires exists|e: u64| e <= 62 && n == (1u64 << e), n < SIZE_MAX_()
    ensures (n << 1) == 2 * n, exists|e: u64| e <= 62 && (n << 1) == (1u64 << e), n << 1 <= SIZE_MAX_()
{
    let e = choose|e: u64| e <= 62 && n == (1u64 << e);
    assert(e < 62) by { assert((1u64 << 62u64) == 0x4000_0000_0000_0000) by(bit_vector); }
    assert((n << 1) == 2 * n && (n << 1) == (1u64 << add(e, 1)) && (n << 1) <= 0x4000_0000_0000_0000) by(bit_vector) requires n == (1u64 << e), e < 62;
}
pub proof fn lem_put(a: Seq<u64>, b: Seq<u64>, x: u64, op: int, v: bool)
    requires x < 64 * a.len(), a.len() == b.len(), forall|w: int| 0 <= w < a.len() && w != x / 64 ==> #[trigger] b[w] == a[w],
        b[(x / 64) as int] == ({ let d = a[(x / 64) as int]; let q = 1u64 << (x % 64); let s = (if v { 1u64 } else { 0u64 }) << (x % 64);
            if op == 0 { d | q } else if op == 1 { d | s } else if op == 2 { (d & !q) | s } else if op == 3 { d & !q } else { d ^ q } })
    ensures forall|k: int| 0 <= k < 64 * a.len() ==> #[trigger] vbit(b, k) == if k == x { if op == 0 { true } else if op == 1 { vbit(a, k) || v } else if op == 2 { v } else if op == 3 { false } else { !vbit(a, k) } } else { vbit(a, k) }
{
    let d = a[(x / 64) as int]; let y = x % 64;
    let q = 1u64 << y; let s = (if v { 1u64 } else { 0u64 }) << y;
    assert forall|k: int| 0 <= k < 64 * a.len() implies #[trigger] vbit(b, k) == if k == x { if op == 0 { true } else if op == 1 { vbit(a, k) || v } else if op == 2 { v } else if op == 3 { false } else { !vbit(a, k) } } else { vbit(a, k) } by {
        if k / 64 == x / 64 {
            let m = k % 64;
            lem_wbit_one(y, m);
            lem_wbit_ops(d, q, m); lem_wbit_ops(d, s, m); lem_wbit_ops(d, !q, m); lem_wbit_not(q, m); lem_wbit_ops(d & !q, s, m);
            if !v { assert((0u64 << y) == 0) by(bit_vector); lem_wbit_zero(m); }
            assert((k == x) == (m == y));
        }
    }
}
// some bit at a position congruent to k modulo 512 below 512 i differs from v
pub open spec fn bit_at(d: Seq<u64>, v: bool, k: int, i: int) -> bool { exists|x: int| 0 <= x < 512 * i && x % 512 == k && #[trigger] vbit(d, x) == v }
pub open spec fn diff_at(l: Seq<u64>, r: Seq<u64>, k: int, i: int) -> bool { exists|x: int| 0 <= x < 512 * i && x % 512 == k && #[trigger] vbit(l, x) != vbit(r, x) }
// number of set bits among the first n
pub open spec fn count(d: Seq<u64>, n: int) -> int decreases n { if n <= 0 { 0 } else { count(d, n - 1) + (if vbit(d, n - 1) { 1int } else { 0 }) } }
pub open spec fn wcount(w: u64, n: int) -> int decreases n { if n <= 0 { 0 } else { wcount(w, n - 1) + (if wbit(w, n - 1) { 1int } else { 0 }) } }
// assumed meaning of the compiler intrinsic
#[verifier::external_body]
pub fn rk__builtin_popcountll(w: u64) -> (r: i32) ensures r == wcount(w, 64), 0 <= r <= 64 { unimplemented!() }
pub proof fn lem_count_le(d: Seq<u64>, n: int) requires n >= 0 ensures 0 <= count(d, n) <= n decreases n { if n > 0 { lem_count_le(d, n - 1); } }
proof fn lem_count_word_to(d: Seq<u64>, i: int, k: int)
    requires 0 <= i, 0 <= k <= 64
    ensures count(d, 64 * i + k) == count(d, 64 * i) + wcount(d[i], k)
    decreases k
{ if k > 0 { lem_count_word_to(d, i, k - 1); assert((64 * i + k - 1) / 64 == i); assert((64 * i + k - 1) % 64 == k - 1); } }
pub proof fn lem_count_word(d: Seq<u64>, i: int) requires 0 <= i ensures count(d, 64 * (i + 1)) == count(d, 64 * i) + wcount(d[i], 64) { lem_count_word_to(d, i, 64); }
pub proof fn lem_count_zero(d: Seq<u64>, n: int, m: int)
    requires 0 <= n <= m, forall|x: int| n <= x < m ==> !(#[trigger] vbit(d, x))
    ensures count(d, m) == count(d, n)
    decreases m - n
{ if n < m { lem_count_zero(d, n, m - 1); assert(!vbit(d, m - 1)); } }
// the order of the implementation: by size, then by the first differing word
pub open spec fn first_diff(a: Seq<u64>, b: Seq<u64>, w: int) -> bool { 0 <= w < a.len() && a[w] != b[w] && forall|v: int| 0 <= v < w ==> #[trigger] a[v] == b[v] }
pub open spec fn bv_less(l: BitVector, r: BitVector) -> bool {
    l.n() < r.n() || (l.n() == r.n() && exists|w: int| #[trigger] first_diff(l.data_@, r.data_@, w) && l.data_@[w] < r.data_@[w])
}
pub open spec fn bv_same(l: BitVector, r: BitVector) -> bool { l.n() == r.n() && same_bits(l.data_@, r.data_@, l.n()) }
pub proof fn lem_same_data(l: BitVector, r: BitVector)
    requires l.wf(), r.wf(), bv_same(l, r)
    ensures l.data_@ =~= r.data_@
{
    assert forall|w: int| 0 <= w < l.data_@.len() implies l.data_@[w] == r.data_@[w] by {
        assert forall|k: int| 0 <= k < 64 implies wbit(l.data_@[w], k) == wbit(r.data_@[w], k) by {
            let x = 64 * w + k;
            assert(x / 64 == w && x % 64 == k);
            assert(vbit(l.data_@, x) == vbit(r.data_@, x));
        }
        lem_word_eq(l.data_@[w], r.data_@[w]);
    }
}
proof fn lem_first_diff(a: Seq<u64>, b: Seq<u64>, n: int)
    requires a.len() == b.len(), 0 <= n <= a.len()
    ensures (exists|w: int| #[trigger] first_diff(a, b, w) && w < n) || (forall|v: int| 0 <= v < n ==> #[trigger] a[v] == b[v])
    decreases n
{ if n > 0 { lem_first_diff(a, b, n - 1); if (forall|v: int| 0 <= v < n - 1 ==> #[trigger] a[v] == b[v]) && a[n - 1] != b[n - 1] { assert(first_diff(a, b, n - 1)); } } }
// operator< is a strict total order whose equivalence is operator==
pub proof fn lem_less_irreflexive(a: BitVector) ensures !bv_less(a, a) {}
pub proof fn lem_less_asymmetric(a: BitVector, b: BitVector) requires a.wf(), b.wf(), bv_less(a, b) ensures !bv_less(b, a), !bv_same(a, b)
{
    if bv_same(a, b) { lem_same_data(a, b); }
    if a.n() == b.n() {
        let w = choose|w: int| #[trigger] first_diff(a.data_@, b.data_@, w) && a.data_@[w] < b.data_@[w];
        if bv_less(b, a) {
            let v = choose|v: int| #[trigger] first_diff(b.data_@, a.data_@, v) && b.data_@[v] < a.data_@[v];
            if v < w { assert(a.data_@[v] == b.data_@[v]); } else if w < v { assert(b.data_@[w] == a.data_@[w]); }
        }
    }
}
pub proof fn lem_less_total(a: BitVector, b: BitVector) requires a.wf(), b.wf(), !bv_same(a, b) ensures bv_less(a, b) || bv_less(b, a)
{
    if a.n() == b.n() {
        lem_first_diff(a.data_@, b.data_@, a.data_@.len() as int);
        if !(exists|w: int| #[trigger] first_diff(a.data_@, b.data_@, w)) {
            assert(a.data_@ =~= b.data_@);
        } else {
            let w = choose|w: int| #[trigger] first_diff(a.data_@, b.data_@, w);
            assert(first_diff(b.data_@, a.data_@, w));
        }
    }
}
pub proof fn lem_less_transitive(a: BitVector, b: BitVector, c: BitVector) requires a.wf(), b.wf(), c.wf(), bv_less(a, b), bv_less(b, c) ensures bv_less(a, c)
{
    if a.n() == b.n() && b.n() == c.n() {
        let w = choose|w: int| #[trigger] first_diff(a.data_@, b.data_@, w) && a.data_@[w] < b.data_@[w];
        let v = choose|v: int| #[trigger] first_diff(b.data_@, c.data_@, v) && b.data_@[v] < c.data_@[v];
        if w < v { assert(b.data_@[w] == c.data_@[w]); assert(first_diff(a.data_@, c.data_@, w)); }
        else if v < w { assert(a.data_@[v] == b.data_@[v]); assert(first_diff(a.data_@, c.data_@, v)); }
        else { assert(first_diff(a.data_@, c.data_@, w)); }
    }
}
pub proof fn lem_less_cases(a: BitVector, b: BitVector)
    requires a.wf(), b.wf()
    ensures bv_less(a, b) ==> !bv_less(b, a) && !bv_same(a, b), bv_less(b, a) ==> !bv_same(a, b), !bv_same(a, b) ==> bv_less(a, b) || bv_less(b, a)
{
    if bv_less(a, b) { lem_less_asymmetric(a, b); }
    if bv_less(b, a) { lem_less_asymmetric(b, a); if bv_same(a, b) { lem_same_data(a, b); } }
    if !bv_same(a, b) { lem_less_total(a, b); }
}
// the predicate handed to make_bit_vector: any function
pub uninterp spec fn pred_spec(x: u64) -> bool;
#[verifier::external_body]
pub fn pred_exec(x: u64) -> (r: bool) ensures r == pred_spec(x) { unimplemented!() }
