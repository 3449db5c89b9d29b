// C strings: a value with its characters before the terminating zero (assumed: the strings do not change while the map refers to them)
impl RkCStr {
    pub uninterp spec fn null(&self) -> bool;
    pub uninterp spec fn str(&self) -> Seq<i8>;
}
#[verifier::external_body]
pub fn rk_cstr_null() -> (r: RkCStr) ensures r.null() { unimplemented!() }
#[verifier::external_body]
pub fn rk_cstr_is_null(s: RkCStr) -> (r: bool) ensures r == s.null() { unimplemented!() }
#[verifier::external_body]
pub fn rk_cstr_at(s: RkCStr, i: u64) -> (r: i8) requires !s.null(), i <= s.str().len() ensures r == if i < s.str().len() { s.str()[i as int] } else { 0i8 } { unimplemented!() }
#[verifier::external_body]
pub fn rk_strlen(s: RkCStr) -> (r: u64) requires !s.null() ensures r == s.str().len() { unimplemented!() }
#[verifier::external_body]
pub fn rk_strcmp(a: RkCStr, b: RkCStr) -> (r: i32) requires !a.null(), !b.null() ensures (r == 0) == (a.str() == b.str()) { unimplemented!() }
// the functors handed to build: any functions of the position
pub uninterp spec fn fkey(i: int) -> RkCStr;
pub uninterp spec fn fval(i: int) -> RkCStr;
#[verifier::external_body]
pub fn get_key(i: u32) -> (r: RkCStr) ensures r == fkey(i as int) { unimplemented!() }
#[verifier::external_body]
pub fn get_value(i: u32) -> (r: RkCStr) ensures r == fval(i as int) { unimplemented!() }
pub open spec fn ch(c: i8) -> int {
    if c == 101 || c == 69 { 7 } else if c == 116 || c == 84 { 8 } else if c == 97 || c == 65 { 9 } else if c == 111 || c == 79 { 10 } else if c == 105 || c == 73 { 11 }
    else if c == 110 || c == 78 { 12 } else if c == 115 || c == 83 { 13 } else if c == 104 || c == 72 { 14 } else if c == 114 || c == 82 { 15 } else { (c as u8) as int % 7 }
}
pub open spec fn hs(s: Seq<i8>) -> int {
    if s.len() == 0 { 0 } else { (ch(s[0]) * 16 + ch(s[s.len() - 1])) * 16 + ch(s[(s.len() - 1) / 2]) }
}
impl TagMap {
    pub open spec fn n(&self) -> int { self.entry@.len() as int }
    pub open spec fn shape(&self) -> bool {
        &&& self.entry_begin@.len() == 4096 && self.entry_end@.len() == 4096
        &&& forall|i: int| 0 <= i < self.hash_element_list@.len() ==> (#[trigger] self.hash_element_list@[i] >> 32) < 4096
        &&& forall|h: int| 0 <= h < 4096 && #[trigger] self.entry_end@[h] != 0 ==> self.entry_end@[h] <= self.n() && self.listed(h)
    }
    // a bucket is in use only if its hash is in the list of hashes (so that clear finds it)
    pub open spec fn listed(&self, h: int) -> bool { exists|i: int| 0 <= i < self.hash_element_list@.len() && (#[trigger] self.hash_element_list@[i] >> 32) == h }
    pub open spec fn keys_ok(&self) -> bool { forall|i: int| 0 <= i < self.n() ==> !(#[trigger] self.entry@[i]).key.null() }
    pub open spec fn wf(&self) -> bool { self.shape() && self.keys_ok() }
    // position i of the entry table is found under key k
    pub open spec fn at(&self, k: Seq<i8>, i: int) -> bool { self.entry_begin@[hs(k)] <= i < self.entry_end@[hs(k)] && self.entry@[i].key.str() == k }
    pub open spec fn has_pair(&self, k: Seq<i8>, v: RkCStr) -> bool { exists|i: int| #[trigger] self.at(k, i) && self.entry@[i].value == v }
    pub open spec fn has_key(&self, k: Seq<i8>) -> bool { exists|i: int| #[trigger] self.at(k, i) }
}
pub open spec fn given(n: int, k: Seq<i8>, v: RkCStr) -> bool { exists|i: int| 0 <= i < n && (#[trigger] fkey(i)).str() == k && fval(i) == v }
pub open spec fn given_key(n: int, k: Seq<i8>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] fkey(i)).str() == k }

pub open spec fn hi(x: u64) -> int { (x >> 32) as int }
pub open spec fn lo(x: u64) -> int { (x & 0xFFFF_FFFF) as int }
pub open spec fn packed(x: u64, i: int) -> bool { hi(x) == hs(fkey(i).str()) && lo(x) == i }
pub proof fn lem_hs() ensures forall|s: Seq<i8>| 0 <= #[trigger] hs(s) < 4096 {}
pub proof fn lem_pack() ensures forall|h: u32, i: u32| #![trigger ((h as u64) << 32u64) | (i as u64)] ((((h as u64) << 32u64) | (i as u64)) >> 32u64) == h && ((((h as u64) << 32u64) | (i as u64)) & 0xFFFF_FFFFu64) == i
{ assert forall|h: u32, i: u32| #![trigger ((h as u64) << 32u64) | (i as u64)] ((((h as u64) << 32u64) | (i as u64)) >> 32u64) == h && ((((h as u64) << 32u64) | (i as u64)) & 0xFFFF_FFFFu64) == i by { assert(((((h as u64) << 32u64) | (i as u64)) >> 32u64) == h && ((((h as u64) << 32u64) | (i as u64)) & 0xFFFF_FFFFu64) == i) by(bit_vector); } }
pub proof fn lem_parts(x: u64) ensures 0 <= hi(x) <= 0xFFFF_FFFF, 0 <= lo(x) <= 0xFFFF_FFFF
{ assert((x >> 32) <= 0xFFFF_FFFF && (x & 0xFFFF_FFFF) <= 0xFFFF_FFFF) by(bit_vector); }
proof fn lem_mono(a: u64, b: u64) requires a <= b ensures hi(a) <= hi(b) { assert((a >> 32) <= (b >> 32)) by(bit_vector) requires a <= b; }
// what sorting the packed list gives
pub proof fn lem_sorted(before: Seq<u64>, list: Seq<u64>, n: int)
    requires before.len() == n, list.len() == n, forall|j: int| 0 <= j < n ==> packed(#[trigger] before[j], j),
        ordered_by(list, 0, n, |a: u64, b: u64| a < b), exists|q: Seq<int>| #[trigger] rearranged(before, list, 0, n, q)
    ensures forall|j: int| 0 <= j < n ==> 0 <= lo(#[trigger] list[j]) < n && packed(list[j], lo(list[j])),
        forall|i: int, j: int| 0 <= i <= j < n ==> hi(#[trigger] list[i]) <= hi(#[trigger] list[j]),
        forall|k: int| 0 <= k < n ==> #[trigger] placed(list, k),
{
    let q = choose|q: Seq<int>| #[trigger] rearranged(before, list, 0, n, q);
    assert forall|j: int| 0 <= j < n implies 0 <= lo(#[trigger] list[j]) < n && packed(list[j], lo(list[j])) by { assert(list[j] == before[q[j]]); }
    assert forall|i: int, j: int| 0 <= i <= j < n implies hi(#[trigger] list[i]) <= hi(#[trigger] list[j]) by { if i < j { lem_mono(list[i], list[j]); } }
    assert forall|k: int| 0 <= k < n implies #[trigger] placed(list, k) by {
        lem_onto(q, n, k);
        let j = choose|j: int| 0 <= j < n && #[trigger] q[j] == k; assert(list[j] == before[q[j]]); assert(lo(list[j]) == k);
    }
}
pub open spec fn placed(list: Seq<u64>, k: int) -> bool { exists|j: int| 0 <= j < list.len() && lo(#[trigger] list[j]) == k }
pub proof fn lem_built(m: &TagMap, before: Seq<u64>, list: Seq<u64>, n: int)
    requires m.hash_element_list@ == list, list.len() == n, m.entry@.len() == n, m.entry_begin@.len() == 4096, m.entry_end@.len() == 4096,
        forall|i: int| 0 <= i < n ==> !(#[trigger] fkey(i)).null() && fkey(i).str().len() < 0xFFFF_FFFF,
        forall|j: int| 0 <= j < n ==> 0 <= lo(#[trigger] list[j]) < n && packed(list[j], lo(list[j])),
        forall|k: int| 0 <= k < n ==> #[trigger] placed(list, k),
        forall|j: int| 0 <= j < n ==> m.entry_begin@[hi(#[trigger] list[j])] <= j < m.entry_end@[hi(list[j])],
        forall|h: int| 0 <= h < 4096 && #[trigger] m.entry_end@[h] != 0 ==> m.entry_end@[h] <= n && hi(list[m.entry_end@[h] - 1]) == h,
        forall|j: int| 0 <= j < n ==> (#[trigger] m.entry@[j]).key == fkey(lo(list[j])) && m.entry@[j].value == fval(lo(list[j])),
    ensures m.wf(), forall|k: Seq<i8>, v: RkCStr| #[trigger] m.has_pair(k, v) == given(n, k, v), forall|k: Seq<i8>| #[trigger] m.has_key(k) == given_key(n, k)
{
    lem_hs();
    assert forall|i: int| 0 <= i < n implies (#[trigger] m.hash_element_list@[i] >> 32) < 4096 by { assert(packed(list[i], lo(list[i]))); assert(hi(list[i]) < 4096); }
    assert forall|h: int| 0 <= h < 4096 && #[trigger] m.entry_end@[h] != 0 implies m.entry_end@[h] <= n && m.listed(h) by { let x = m.entry_end@[h] - 1; assert((m.hash_element_list@[x] >> 32) == h); }
    assert forall|k: Seq<i8>, i: int| #[trigger] m.at(k, i) implies 0 <= i < n && given(n, k, m.entry@[i].value) by { assert(m.entry@[i].key == fkey(lo(list[i]))); assert(fkey(lo(list[i])).str() == k); }
    assert forall|x: int| 0 <= x < n implies #[trigger] m.has_pair(fkey(x).str(), fval(x)) by { assert(placed(list, x)); let j = choose|j: int| 0 <= j < list.len() && lo(#[trigger] list[j]) == x; assert(m.at(fkey(x).str(), j)); }
    assert forall|k: Seq<i8>, v: RkCStr| #[trigger] m.has_pair(k, v) == given(n, k, v) by {
        if m.has_pair(k, v) { let i = choose|i: int| #[trigger] m.at(k, i) && m.entry@[i].value == v; }
        if given(n, k, v) { let i = choose|i: int| 0 <= i < n && (#[trigger] fkey(i)).str() == k && fval(i) == v; assert(m.has_pair(fkey(i).str(), fval(i))); }
    }
    assert forall|k: Seq<i8>| #[trigger] m.has_key(k) == given_key(n, k) by {
        if m.has_key(k) { let i = choose|i: int| #[trigger] m.at(k, i); assert(given(n, k, m.entry@[i].value)); }
        if given_key(n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] fkey(i)).str() == k; assert(m.has_pair(fkey(i).str(), fval(i))); }
    }
}
// an injective sequence of n numbers below n takes every value
proof fn lem_onto(t: Seq<int>, n: int, y: int)
    requires t.len() == n, 0 <= y < n, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] t[i] < n, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] t[i] != #[trigger] t[j]
    ensures exists|i: int| 0 <= i < n && #[trigger] t[i] == y
{
    if !(exists|i: int| 0 <= i < n && #[trigger] t[i] == y) {
        assert(t.no_duplicates());
        t.unique_seq_to_set();
        vstd::set_lib::lemma_int_range(0, n);
        let rem = vstd::set_lib::set_int_range(0, n).remove(y);
        assert(t.to_set().subset_of(rem)) by { assert forall|z: int| t.to_set().contains(z) implies rem.contains(z) by { let k = choose|k: int| 0 <= k < t.len() && t[k] == z; assert(0 <= t[k] < n); } }
        vstd::set_lib::lemma_len_subset(t.to_set(), rem);
        assert(false);
    }
}
