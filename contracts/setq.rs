pub open spec fn po(k: int) -> int decreases k { if k <= 0 { 1 } else { 2 * po(k - 1) } }
pub proof fn lemma_po(k: int) ensures po(k) >= 1, k >= 1 ==> po(k) >= 2, k >= 1 ==> po(k) % 2 == 0, k >= 0 ==> po(k + 1) == 2 * po(k) decreases k
{ if k > 0 { lemma_po(k - 1); } }
// first and last leaf below the node x of height h
pub open spec fn lo(x: int, h: int) -> int decreases h { if h <= 0 { x } else { lo(2 * x, h - 1) } }
pub open spec fn hi(x: int, h: int) -> int decreases h { if h <= 0 { x } else { hi(2 * x + 1, h - 1) } }
pub proof fn lemma_lohi(x: int, h: int) requires h >= 0, ensures hi(x, h) + 1 == lo(x + 1, h), lo(x, h) <= hi(x, h), decreases h
{ if h > 0 { lemma_lohi(2 * x, h - 1); lemma_lohi(2 * x + 1, h - 1); } }
pub proof fn lemma_lo1(k: int, j: int) requires j >= 0, k >= 0, ensures lo(po(k), j) == po(k + j), lo(2 * po(k), j) == 2 * po(k + j) decreases j
{ lemma_po(k); if j > 0 { lemma_lo1(k + 1, j - 1); } }
pub proof fn lemma_lo_mono(x: int, y: int, h: int) requires h >= 0, x <= y, ensures lo(x, h) <= lo(y, h), decreases h
{ if h > 0 { lemma_lo_mono(2 * x, 2 * y, h - 1); } }
pub open spec fn bit(d: Seq<bool>, x: int) -> bool { 0 <= x < d.len() && d[x] }
pub open spec fn ok(d: Seq<bool>, x: int) -> bool { bit(d, x) == (bit(d, 2 * x) || bit(d, 2 * x + 1)) }
// all inner nodes but e agree with their children
pub open spec fn okx(d: Seq<bool>, off: int, e: int) -> bool { forall|z: int| 1 <= z < off && z != e ==> #[trigger] ok(d, z) }
// x is a node of height h in the tree with po(hh) leaves
pub open spec fn at(x: int, h: int, hh: int) -> bool { 0 <= h <= hh && po(hh - h) <= x < 2 * po(hh - h) }
pub proof fn lemma_at(x: int, h: int, hh: int) requires at(x, h, hh),
    ensures x >= 1, x == 1 <==> h == hh, h < hh ==> at(x / 2, h + 1, hh), h > 0 ==> at(2 * x, h - 1, hh) && at(2 * x + 1, h - 1, hh), x < po(hh) <==> h > 0,
        po(hh) <= lo(x, h), hi(x, h) < 2 * po(hh), h < hh && x % 2 == 1 ==> at(x - 1, h, hh), h < hh && x % 2 == 0 ==> at(x + 1, h, hh)
{
    lemma_po(hh - h); lemma_po(hh - h - 1); lemma_po(hh); lemma_po_mono(hh - h, hh);
    lemma_lo1(hh - h, h); lemma_lo_mono(po(hh - h), x, h); lemma_lo_mono(x + 1, 2 * po(hh - h), h); lemma_lohi(x, h);
    if h > 0 { lemma_po(hh - h + 1); lemma_po_mono(hh - h + 1, hh); }
}
pub proof fn lemma_po_mono(a: int, b: int) requires a <= b, ensures po(a) <= po(b) decreases b - a { if a < b { lemma_po_mono(a, b - 1); lemma_po(b - 1); if b <= 0 { } } }
// a set inner node has a set leaf below, an unset one has none
pub proof fn lemma_leaf(d: Seq<bool>, y: int, h: int, hh: int, e: int) -> (l: int)
    requires at(y, h, hh), okx(d, po(hh), e), e != y, e < 2 * po(hh - h), bit(d, y),
    ensures lo(y, h) <= l <= hi(y, h), bit(d, l),
    decreases h
{
    lemma_at(y, h, hh);
    if h == 0 { y } else {
        assert(ok(d, y)); lemma_po(hh - h);
        lemma_lohi(2 * y, h - 1); lemma_lohi(2 * y + 1, h - 1);
        assert(hh - (h - 1) == hh - h + 1);
        if bit(d, 2 * y) { lemma_leaf(d, 2 * y, h - 1, hh, e) } else { lemma_leaf(d, 2 * y + 1, h - 1, hh, e) }
    }
}
pub proof fn lemma_noleaf(d: Seq<bool>, y: int, h: int, hh: int, e: int, l: int)
    requires at(y, h, hh), okx(d, po(hh), e), e != y, e < 2 * po(hh - h), !bit(d, y), lo(y, h) <= l <= hi(y, h),
    ensures !bit(d, l),
    decreases h
{
    lemma_at(y, h, hh);
    if h > 0 {
        assert(ok(d, y)); lemma_po(hh - h);
        lemma_lohi(2 * y, h - 1);
        assert(hh - (h - 1) == hh - h + 1);
        if l <= hi(2 * y, h - 1) { lemma_noleaf(d, 2 * y, h - 1, hh, e, l); } else { lemma_noleaf(d, 2 * y + 1, h - 1, hh, e, l); }
    }
}
pub open spec fn has(q: IDSetMinQueue, i: int) -> bool { 0 <= i < q.max_number_of_ids && bit(q.data@, q.offset + i) }
pub open spec fn shape(q: IDSetMinQueue, hh: int) -> bool {
    &&& hh >= 0 && q.offset == po(hh) && q.max_number_of_ids <= q.offset
    &&& q.max_number_of_ids < 0x7FFF_FFFF
    &&& q.data@.len() == q.max_number_of_ids + q.offset + q.max_number_of_ids % 2
    &&& q.data@.len() < 0x1_0000_0000
}
pub open spec fn tree(q: IDSetMinQueue) -> bool {
    &&& okx(q.data@, q.offset as int, 0)
    &&& forall|x: int| q.offset + q.max_number_of_ids <= x ==> !#[trigger] bit(q.data@, x)
}
pub open spec fn min_ok(q: IDSetMinQueue) -> bool {
    if q.min_id == 0xFFFF_FFFF { forall|i: int| !#[trigger] has(q, i) }
    else { has(q, q.min_id as int) && forall|i: int| #[trigger] has(q, i) ==> q.min_id <= i }
}
pub open spec fn wf(q: IDSetMinQueue) -> bool { (exists|hh: int| #[trigger] shape(q, hh)) && tree(q) && min_ok(q) }
pub proof fn lemma_bits()
    ensures forall|x: u32| #[trigger] (x >> 1) == x / 2, forall|x: u32| #[trigger] (x & 1) == x % 2, forall|x: u32| x < 0x8000_0000 ==> #[trigger] (x << 1) == 2 * x,
        forall|x: u32| x < 0xFFFF_FFFF ==> #[trigger] (x ^ 1) == if x % 2 == 0 { x + 1 } else { x - 1 }
{
    assert forall|x: u32| #[trigger] (x >> 1) == x / 2 by { assert((x >> 1) == x / 2) by(bit_vector); }
    assert forall|x: u32| #[trigger] (x & 1) == x % 2 by { assert((x & 1) == x % 2) by(bit_vector); }
    assert forall|x: u32| x < 0x8000_0000 implies #[trigger] (x << 1) == 2 * x by { assert(x < 0x8000_0000 ==> (x << 1) == 2 * x) by(bit_vector); }
    assert forall|x: u32| x < 0xFFFF_FFFF implies #[trigger] (x ^ 1) == if x % 2 == 0 { x + 1 } else { x - 1 } by { assert(x % 2 == 0 ==> (x ^ 1) == x + 1) by(bit_vector); assert(x % 2 != 0 ==> (x ^ 1) == x - 1) by(bit_vector); }
}
pub proof fn lemma_po31() ensures po(31) == 0x8000_0000, po(30) == 0x4000_0000 { reveal_with_fuel(po, 32); }
