// library functions only the construction of a CCH needs
pub fn rk_vec_empties<T>(n: u64) -> (r: Vec<Vec<T>>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0,
{
    let mut r: Vec<Vec<T>> = Vec::new();
    let mut i: u64 = 0;
    while i < n
        invariant 0 <= i <= n, r@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] r@[k])@.len() == 0,
        decreases n - i
    { r.push(Vec::new()); i = i + 1; }
    r
}
// a throw whose handler is outside the function under contract
#[verifier::external_body]
pub fn rk_throw() ensures false { panic!() }
pub fn rk_copy<T: Copy>(a: &Vec<T>, f: u64, l: u64, v: &mut Vec<T>, o: u64)
    requires f <= l <= a@.len(), o + (l - f) <= old(v)@.len() <= 0xFFFF_FFFF_FFFF_FFFF,
    ensures final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < final(v)@.len() ==> #[trigger] final(v)@[i] == if o <= i < o + (l - f) { a@[f + (i - o)] } else { old(v)@[i] },
{
    let mut i = f; let mut j = o;
    let ghost v0 = v@;
    while i < l
        invariant f <= i <= l <= a@.len(), j == o + (i - f), o + (l - f) <= v@.len() <= 0xFFFF_FFFF_FFFF_FFFF, v@.len() == v0.len(),
          forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == if o <= k < j { a@[f + (k - o)] } else { v0[k] },
        decreases l - i
    { v.set(j as usize, a[i as usize]); i = i + 1; j = j + 1; }
}
// the value x occurs at a position in [f, l)
pub open spec fn occ(s: Seq<u32>, f: int, l: int, x: u32) -> bool { exists|i: int| f <= i < l && #[trigger] s[i] == x }
// std::unique on a sorted range: afterwards [f, r) lists the values of the range in strictly increasing order, the rest up to l is unspecified
#[verifier::external_body]
pub fn rk_unique(v: &mut Vec<u32>, f: u64, l: u64) -> (r: u64)
    requires f <= l <= old(v)@.len(), seq_sorted(old(v)@, f as int, l as int),
    ensures f <= r <= l, final(v)@.len() == old(v)@.len(),
        forall|i: int, j: int| f <= i < j < r ==> #[trigger] final(v)@[i] < #[trigger] final(v)@[j],
        forall|x: u32| #![trigger occ(final(v)@, f as int, r as int, x)] #![trigger occ(old(v)@, f as int, l as int, x)] occ(final(v)@, f as int, r as int, x) == occ(old(v)@, f as int, l as int, x),
        forall|i: int| 0 <= i < f || l <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
{ unimplemented!() }
// std::merge of two sorted ranges
#[verifier::external_body]
pub fn rk_merge(a: &Vec<u32>, f: u64, l: u64, b: &Vec<u32>, g: u64, m: u64, v: &mut Vec<u32>, o: u64)
    requires f <= l <= a@.len(), g <= m <= b@.len(), o + (l - f) + (m - g) <= old(v)@.len(), seq_sorted(a@, f as int, l as int), seq_sorted(b@, g as int, m as int),
    ensures final(v)@.len() == old(v)@.len(), seq_sorted(final(v)@, o as int, o + (l - f) + (m - g)),
        forall|i: int| 0 <= i < o || o + (l - f) + (m - g) <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
        forall|x: u32| #![trigger occ(final(v)@, o as int, o + (l - f) + (m - g), x)] #![trigger occ(a@, f as int, l as int, x)] #![trigger occ(b@, g as int, m as int, x)]
            occ(final(v)@, o as int, o + (l - f) + (m - g), x) == (occ(a@, f as int, l as int, x) || occ(b@, g as int, m as int, x)),
{ unimplemented!() }
