impl LocalIDMapper {
    pub open spec fn bits(&self) -> Seq<u64> { self.bits_.val()@ }
    // the mapper of the set of the set bits below bit_count_
    pub open spec fn mwf(&self) -> bool {
        &&& !self.bits_.null()
        &&& self.bit_count_ <= SIZE_MAX_()
        &&& self.bits().len() == 8 * nblk(self.bit_count_ as int)
        &&& zero_from(self.bits(), self.bit_count_ as int)
        &&& self.rank_@.len() == nblk(self.bit_count_ as int) + 1
        &&& forall|j: int| 0 <= j < self.rank_@.len() ==> #[trigger] self.rank_@[j] == count(self.bits(), 512 * j)
    }
}
impl IDMapper {
    pub open spec fn iwf(&self) -> bool {
        let n = count(self.base_.bits(), self.base_.bit_count_ as int);
        &&& self.base_.mwf()
        &&& self.select_@.len() == (n + 255) / 256
        &&& forall|q: int| 0 <= q < self.select_@.len() ==> #[trigger] self.select_@[q] < nblk(self.base_.bit_count_ as int) && count(self.base_.bits(), 512 * self.select_@[q]) <= 256 * q
    }
}
pub open spec fn add_(a: u32, b: int) -> u32 { (a + b) as u32 }
pub proof fn lem_shl8(x: u32) requires x < 0x100_0000 ensures (x << 8) == 256 * x { assert((x << 8) == 256 * x) by(bit_vector) requires x < 0x100_0000; }
pub proof fn lem_count_mono(d: Seq<u64>, a: int, b: int) requires a <= b ensures count(d, a) <= count(d, b) decreases b - a { if a < b { lem_count_mono(d, a, b - 1); } }
// counting is strictly increasing on the set bits, so local ids are a bijection
pub proof fn lem_count_inj(d: Seq<u64>, a: int, b: int) requires 0 <= a < b, vbit(d, a) ensures count(d, a) < count(d, b) { lem_count_mono(d, a + 1, b); }
pub proof fn lem_local_injective(d: Seq<u64>, a: int, b: int) requires 0 <= a, 0 <= b, vbit(d, a), vbit(d, b), count(d, a) == count(d, b) ensures a == b
{ if a < b { lem_count_inj(d, a, b); } else if b < a { lem_count_inj(d, b, a); } }
pub proof fn lem_count_block(d: Seq<u64>, j: int)
    requires 0 <= j
    ensures count(d, 512 * (j + 1)) == count(d, 512 * j) + wcount(d[8 * j], 64) + wcount(d[8 * j + 1], 64) + wcount(d[8 * j + 2], 64) + wcount(d[8 * j + 3], 64)
        + wcount(d[8 * j + 4], 64) + wcount(d[8 * j + 5], 64) + wcount(d[8 * j + 6], 64) + wcount(d[8 * j + 7], 64), count(d, 512 * (j + 1)) <= count(d, 512 * j) + 512, 0 <= count(d, 512 * j) <= 512 * j
{
    lem_count_word(d, 8 * j); lem_count_word(d, 8 * j + 1); lem_count_word(d, 8 * j + 2); lem_count_word(d, 8 * j + 3);
    lem_count_word(d, 8 * j + 4); lem_count_word(d, 8 * j + 5); lem_count_word(d, 8 * j + 6); lem_count_word(d, 8 * j + 7);
    lem_wcount_le(d[8 * j], 64); lem_wcount_le(d[8 * j + 1], 64); lem_wcount_le(d[8 * j + 2], 64); lem_wcount_le(d[8 * j + 3], 64);
    lem_wcount_le(d[8 * j + 4], 64); lem_wcount_le(d[8 * j + 5], 64); lem_wcount_le(d[8 * j + 6], 64); lem_wcount_le(d[8 * j + 7], 64);
    lem_count_le(d, 512 * j);
}
pub proof fn lem_wcount_le(w: u64, n: int) requires n >= 0 ensures 0 <= wcount(w, n) <= n decreases n { if n > 0 { lem_wcount_le(w, n - 1); } }
pub proof fn lem_wcount_mono(w: u64, a: int, b: int) requires a <= b ensures wcount(w, a) <= wcount(w, b) decreases b - a { if a < b { lem_wcount_mono(w, a, b - 1); } }
pub proof fn lem_total(m: LocalIDMapper)
    requires m.mwf()
    ensures m.rank_@[m.rank_@.len() - 1] == count(m.bits(), m.bit_count_ as int)
{ lem_count_zero(m.bits(), m.bit_count_ as int, 512 * nblk(m.bit_count_ as int)); }
pub proof fn lem_rank_total(m: LocalIDMapper, j: int)
    requires m.mwf(), 0 <= j < m.rank_@.len()
    ensures m.rank_@[j] <= count(m.bits(), m.bit_count_ as int)
{ lem_total(m); lem_count_mono(m.bits(), 512 * j, 512 * nblk(m.bit_count_ as int)); }
// facts used by to_local
pub proof fn lem_local(m: LocalIDMapper, g: u64)
    requires m.mwf(), g < m.bit_count_
    ensures ({ let o = g % 64; let w = m.bits()[(g / 64) as int];
        &&& ((w & (1u64 << o)) != 0) == vbit(m.bits(), g as int)
        &&& (1u64 << o) >= 1
        &&& wcount(w & ((1u64 << o) - 1) as u64, 64) == wcount(w, o as int)
        &&& count(m.bits(), g as int) == count(m.bits(), 64 * (g / 64) as int) + wcount(w, o as int)
        &&& vbit(m.bits(), g as int) ==> count(m.bits(), g as int) < count(m.bits(), m.bit_count_ as int)
        &&& (o as u8) as u64 == o
        &&& count(m.bits(), g as int) <= g })
{
    let o = g % 64; let w = m.bits()[(g / 64) as int];
    lem_mask_count(w, o);
    lem_count_word_to(m.bits(), (g / 64) as int, o as int);
    if vbit(m.bits(), g as int) { lem_count_inj(m.bits(), g as int, m.bit_count_ as int); }
    lem_count_le(m.bits(), g as int);
}
pub proof fn lem_mask_count(w: u64, o: u64)
    requires o < 64
    ensures (1u64 << o) >= 1, wcount(w & ((1u64 << o) - 1) as u64, 64) == wcount(w, o as int)
{
    assert((1u64 << o) >= 1) by(bit_vector) requires o < 64;
    let m = ((1u64 << o) - 1) as u64;
    assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(w & m, k) == (wbit(w, k) && k < o) by {
        lem_wbit_ops(w, m, k);
        if o == 0 { assert((1u64 << 0u64) == 1) by(bit_vector); lem_wbit_zero(k); } else { lem_wbit_low(o, k); }
    }
    lem_masked(w & m, w, o as int, 64);
}
proof fn lem_masked(a: u64, w: u64, o: int, n: int)
    requires 0 <= o <= 64, 0 <= n <= 64, forall|k: int| 0 <= k < 64 ==> #[trigger] wbit(a, k) == (wbit(w, k) && k < o)
    ensures wcount(a, n) == wcount(w, if n < o { n } else { o })
    decreases n
{ if n > 0 { lem_masked(a, w, o, n - 1); assert(wbit(a, n - 1) == (wbit(w, n - 1) && n - 1 < o)); } }
// every position inside word i: bit and count
pub proof fn lem_word_pos(d: Seq<u64>, i: int)
    requires 0 <= i
    ensures forall|p: int| 0 <= p < 64 ==> #[trigger] wcount(d[i], p) + count(d, 64 * i) == count(d, 64 * i + p),
        forall|p: int| 0 <= p < 64 ==> #[trigger] wbit(d[i], p) == vbit(d, 64 * i + p),
{
    assert forall|p: int| 0 <= p < 64 implies #[trigger] wcount(d[i], p) + count(d, 64 * i) == count(d, 64 * i + p) by { lem_count_word_to(d, i, p); }
    assert forall|p: int| 0 <= p < 64 implies #[trigger] wbit(d[i], p) == vbit(d, 64 * i + p) by { assert((64 * i + p) / 64 == i); assert((64 * i + p) % 64 == p); }
}
pub proof fn lem_global(m: IDMapper, l: u64)
    requires m.iwf(), l < count(m.base_.bits(), m.base_.bit_count_ as int)
    ensures (l >> 8) == l / 256, l / 256 < m.select_@.len(), m.base_.rank_@[m.select_@[(l / 256) as int] as int] <= l,
        m.base_.rank_@[m.base_.rank_@.len() - 1] == count(m.base_.bits(), m.base_.bit_count_ as int),
        forall|x: int| x >= m.base_.bit_count_ ==> #[trigger] count(m.base_.bits(), x) >= count(m.base_.bits(), m.base_.bit_count_ as int)
{
    assert((l >> 8) == l / 256) by(bit_vector);
    lem_total(m.base_);
    assert forall|x: int| x >= m.base_.bit_count_ implies #[trigger] count(m.base_.bits(), x) >= count(m.base_.bits(), m.base_.bit_count_ as int) by { lem_count_mono(m.base_.bits(), m.base_.bit_count_ as int, x); }
}
// ---- selecting the n-th set bit of a word
#[verifier::external_body]
pub fn rk__builtin_popcount(w: u32) -> (r: i32) ensures r == wcount(w as u64, 32), 0 <= r <= 32 { unimplemented!() }
#[verifier::external_body]
pub fn rk__builtin_ffsll(w: i64) -> (r: i32)
    ensures 0 <= r <= 64, (r == 0) == (w == 0), r > 0 ==> wbit(w as u64, r - 1) && forall|k: int| 0 <= k < r - 1 ==> !(#[trigger] wbit(w as u64, k)) { unimplemented!() }
pub open spec fn half(w: u64, n: int, s: u64) -> (u64, int, int) {
    if wcount(w, s as int) <= n { (w >> s, n - wcount(w, s as int), s as int) } else { (w, n, 0) }
}
pub open spec fn sel_stages(w: u64, n: int) -> (u64, int, int) {
    let a = half(w, n, 32); let b = half(a.0, a.1, 16); let c = half(b.0, b.1, 8);
    (c.0, c.1, a.2 + b.2 + c.2)
}
proof fn lem_shift_count(w: u64, s: u64, k: int)
    requires s < 64, 0 <= k <= 64 - s
    ensures wcount(w >> s, k) == wcount(w, s + k) - wcount(w, s as int)
    decreases k
{
    if k > 0 {
        lem_shift_count(w, s, k - 1);
        let q = (k - 1) as u64;
        assert(((w >> s) & (1u64 << q)) != 0 <==> (w & (1u64 << add(s, q))) != 0) by(bit_vector) requires s < 64, q < 64, add(s, q) < 64;
    }
}
proof fn lem_low_count(w: u64)
    ensures wcount((w as u32) as u64, 32) == wcount(w, 32), wcount(((w as u32) & 0xFFFF) as u64, 32) == wcount(w, 16), wcount(((w as u32) & 0xFF) as u64, 32) == wcount(w, 8)
{
    let a = (w as u32) as u64; let b = ((w as u32) & 0xFFFF) as u64; let c = ((w as u32) & 0xFF) as u64;
    lem_agree(a, w, 32, 32); lem_agree(b, w, 16, 32); lem_agree(c, w, 8, 32);
}
proof fn lem_agree(a: u64, w: u64, o: int, n: int)
    requires 0 <= n <= 32, (o == 32 && a == (w as u32) as u64) || (o == 16 && a == ((w as u32) & 0xFFFF) as u64) || (o == 8 && a == ((w as u32) & 0xFF) as u64)
    ensures wcount(a, n) == wcount(w, if n < o { n } else { o })
    decreases n
{
    if n > 0 {
        lem_agree(a, w, o, n - 1);
        let q = (n - 1) as u64;
        assert((((w as u32) as u64) & (1u64 << q)) != 0 <==> (w & (1u64 << q)) != 0) by(bit_vector) requires q < 32;
        assert(((((w as u32) & 0xFFFF) as u64) & (1u64 << q)) != 0 <==> (w & (1u64 << q)) != 0 && q < 16) by(bit_vector) requires q < 32;
        assert(((((w as u32) & 0xFF) as u64) & (1u64 << q)) != 0 <==> (w & (1u64 << q)) != 0 && q < 8) by(bit_vector) requires q < 32;
    }
}
// the value after one halving step: the wanted bit is among the lowest s bits, at the same distance
pub open spec fn sel_inv(w0: u64, n0: int, w: u64, n: int, r: int, s: int) -> bool {
    &&& 0 <= n < wcount(w, s)
    &&& 0 <= r && r + s <= 64
    &&& wcount(w0, r) + n == n0
    &&& forall|k: int| 0 <= k < s ==> #[trigger] wbit(w, k) == wbit(w0, r + k)
    &&& forall|k: int| 0 <= k <= s ==> #[trigger] wcount(w, k) + wcount(w0, r) == wcount(w0, r + k)
}
proof fn lem_half(w0: u64, n0: int, w: u64, n: int, r: int, s: u64)
    requires 1 <= s <= 32, sel_inv(w0, n0, w, n, r, 2 * s)
    ensures ({ let h = half(w, n, s); sel_inv(w0, n0, h.0, h.1, r + h.2, s as int) })
{
    let h = half(w, n, s);
    if wcount(w, s as int) <= n {
        assert forall|k: int| 0 <= k <= s implies #[trigger] wcount(h.0, k) + wcount(w0, r + s) == wcount(w0, r + s + k) by { lem_shift_count(w, s, k); assert(wcount(w, s + k) + wcount(w0, r) == wcount(w0, r + (s + k))); assert(wcount(w, s as int) + wcount(w0, r) == wcount(w0, r + s)); }
        assert forall|k: int| 0 <= k < s implies #[trigger] wbit(h.0, k) == wbit(w0, r + s + k) by {
            let q = k as u64;
            assert(((w >> s) & (1u64 << q)) != 0 <==> (w & (1u64 << add(s, q))) != 0) by(bit_vector) requires s < 64, q < 64, add(s, q) < 64;
            assert(wbit(w, s + k) == wbit(w0, r + (s + k)));
        }
        lem_shift_count(w, s, s as int);
        assert(wcount(w, s as int) + wcount(w0, r) == wcount(w0, r + s));
    }
}
pub proof fn lem_sel_stages(w: u64, n: int)
    requires 0 <= n < wcount(w, 64)
    ensures ({ let a = half(w, n, 32); let b = half(a.0, a.1, 16); let c = half(b.0, b.1, 8);
        &&& wcount((w as u32) as u64, 32) == wcount(w, 32) && wcount(((a.0 as u32) & 0xFFFF) as u64, 32) == wcount(a.0, 16) && wcount(((b.0 as u32) & 0xFF) as u64, 32) == wcount(b.0, 8)
        &&& n < 64 && 0 <= a.1 < 32 && 0 <= b.1 < 16 && 0 <= c.1 < 8
        &&& sel_inv(w, n, c.0, c.1, a.2 + b.2 + c.2, 8)
        &&& c.1 < wcount(c.0, 64) })
{
    let a = half(w, n, 32); let b = half(a.0, a.1, 16); let c = half(b.0, b.1, 8);
    lem_low_count(w); lem_low_count(a.0); lem_low_count(b.0);
    assert(sel_inv(w, n, w, n, 0, 64));
    lem_half(w, n, w, n, 0, 32);
    lem_half(w, n, a.0, a.1, a.2, 16);
    lem_half(w, n, b.0, b.1, a.2 + b.2, 8);
    lem_wcount_le(w, 64); lem_wcount_le(a.0, 32); lem_wcount_le(b.0, 16); lem_wcount_le(c.0, 8);
    lem_wcount_mono(c.0, 8, 64);
}
// p is the position of the n-th set bit of the reduced word, so r + p is the position in the original one
pub proof fn lem_sel_back(w0: u64, n0: int)
    requires 0 <= n0 < wcount(w0, 64)
    ensures ({ let st = sel_stages(w0, n0); forall|p: int| 0 <= p < 64 && wbit(st.0, p) && #[trigger] wcount(st.0, p) == st.1 ==> st.2 + p < 64 && wbit(w0, st.2 + p) && wcount(w0, st.2 + p) == n0 })
{
    lem_sel_stages(w0, n0);
    let st = sel_stages(w0, n0);
    assert forall|p: int| 0 <= p < 64 && wbit(st.0, p) && #[trigger] wcount(st.0, p) == st.1 implies st.2 + p < 64 && wbit(w0, st.2 + p) && wcount(w0, st.2 + p) == n0 by {
        if p >= 8 { lem_wcount_mono(st.0, 8, p); }
    }
}
pub proof fn lem_has_bit(w: u64, n: int) requires 0 <= n <= 64, wcount(w, n) > 0 ensures exists|k: int| 0 <= k < n && wbit(w, k) decreases n
{ if n > 0 { if wbit(w, n - 1) {} else { lem_has_bit(w, n - 1); } } }
proof fn lem_none_below(w: u64, n: int) requires 0 <= n <= 64, forall|k: int| 0 <= k < n ==> !(#[trigger] wbit(w, k)) ensures wcount(w, n) == 0 decreases n { if n > 0 { lem_none_below(w, n - 1); } }
proof fn lem_least(w: u64, k: int) -> (f: int)
    requires 0 <= k < 64, wbit(w, k)
    ensures 0 <= f <= k, wbit(w, f), forall|j: int| 0 <= j < f ==> !(#[trigger] wbit(w, j))
    decreases k
{ if exists|j: int| 0 <= j < k && wbit(w, j) { let j = choose|j: int| 0 <= j < k && wbit(w, j); lem_least(w, j) } else { k } }
proof fn lem_low_zero(w: u64, f: u64)
    requires f < 64, forall|k: int| 0 <= k < f ==> !(#[trigger] wbit(w, k))
    ensures (1u64 << f) >= 1, w & ((1u64 << f) - 1) as u64 == 0
{
    lem_mask_count(w, f);
    let m = ((1u64 << f) - 1) as u64;
    assert forall|k: int| 0 <= k < 64 implies wbit(w & m, k) == wbit(0, k) by {
        lem_wbit_zero(k); lem_wbit_ops(w, m, k);
        if f == 0 { assert((1u64 << 0u64) == 1) by(bit_vector); } else { lem_wbit_low(f, k); }
    }
    lem_word_eq(w & m, 0);
}
proof fn lem_without(a: u64, w: u64, f: int, n: int)
    requires 0 <= f < 64, 0 <= n <= 64, wbit(w, f), forall|k: int| 0 <= k < 64 ==> #[trigger] wbit(a, k) == (wbit(w, k) && k != f)
    ensures wcount(a, n) == wcount(w, n) - if n > f { 1int } else { 0 }
    decreases n
{ if n > 0 { lem_without(a, w, f, n - 1); assert(wbit(a, n - 1) == (wbit(w, n - 1) && n - 1 != f)); } }
// clearing the lowest set bit
pub proof fn lem_clear_low(w: u64)
    requires wcount(w, 64) > 0
    ensures w > 0, wcount(w & (w - 1) as u64, 64) == wcount(w, 64) - 1,
        forall|p: int| 0 <= p < 64 && wbit(w & (w - 1) as u64, p) ==> wbit(w, p) && #[trigger] wcount(w & (w - 1) as u64, p) == wcount(w, p) - 1
{
    lem_has_bit(w, 64);
    let k0 = choose|k: int| 0 <= k < 64 && wbit(w, k);
    let f = lem_least(w, k0);
    if w == 0 { lem_wbit_zero(f); }
    let g = f as u64;
    lem_low_zero(w, g);
    let c = w & (w - 1) as u64;
    assert((w & sub(w, 1)) == w & !(1u64 << g)) by(bit_vector) requires g < 64, w & sub(1u64 << g, 1) == 0, (w & (1u64 << g)) != 0;
    assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(c, k) == (wbit(w, k) && k != f) by { lem_wbit_ops(w, !(1u64 << g), k); lem_wbit_not(1u64 << g, k); lem_wbit_one(g, k); }
    lem_without(c, w, f, 64);
    assert forall|p: int| 0 <= p < 64 && wbit(c, p) implies wbit(w, p) && #[trigger] wcount(c, p) == wcount(w, p) - 1 by {
        lem_without(c, w, f, p);
        if p < f { assert(!wbit(w, p)); }
    }
}
pub proof fn lem_first_bit(w: u64)
    requires wcount(w, 64) > 0
    ensures w != 0, (w as i64) as u64 == w, (w as i64) != 0, forall|p: int| 0 <= p < 64 && #[trigger] wbit(w, p) && (forall|k: int| 0 <= k < p ==> !(#[trigger] wbit(w, k))) ==> wcount(w, p) == 0
{
    lem_has_bit(w, 64);
    let k0 = choose|k: int| 0 <= k < 64 && wbit(w, k);
    if w == 0 { lem_wbit_zero(k0); }
    assert((w as i64) as u64 == w) by(bit_vector);
    assert forall|p: int| 0 <= p < 64 && #[trigger] wbit(w, p) && (forall|k: int| 0 <= k < p ==> !(#[trigger] wbit(w, k))) implies wcount(w, p) == 0 by { lem_none_below(w, p); }
}
