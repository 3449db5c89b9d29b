// Prelude: semantics of C++ operators and of the std:: functions the translated code calls.
// Everything here with a body is itself verified; external_body items are assumptions.
#[verifier::external_body]
pub fn rk_any<T>() -> (r: T) { unimplemented!() }

pub fn rk_assert(c: bool) requires c, {}

macro_rules! uint_ops { ($($t:ident $add:ident $sub:ident $mul:ident $min:ident $max:ident $m:expr),*) => { verus!{ $(
pub fn $add(a: $t, b: $t) -> (r: $t)
    ensures a + b < $m ==> r == a + b, a + b >= $m ==> r == a + b - $m,
{ a.wrapping_add(b) }
pub fn $sub(a: $t, b: $t) -> (r: $t)
    ensures a >= b ==> r == a - b, a < b ==> r == a - b + $m,
{ a.wrapping_sub(b) }
pub fn $mul(a: $t, b: $t) -> (r: $t)
    ensures a * b < $m ==> r == a * b, r == (a * b) % $m,
{ proof { assert(a * b >= 0) by(nonlinear_arith); if a * b < $m { vstd::arithmetic::div_mod::lemma_small_mod((a*b) as nat, $m as nat); } } a.wrapping_mul(b) }
pub fn $min(a: $t, b: $t) -> (r: $t) ensures r == if b < a { b } else { a }, { if b < a { b } else { a } }
pub fn $max(a: $t, b: $t) -> (r: $t) ensures r == if a < b { b } else { a }, { if a < b { b } else { a } }
)* } } }
uint_ops!(u32 add_u32 sub_u32 mul_u32 min_u32 max_u32 0x1_0000_0000,
          u64 add_u64 sub_u64 mul_u64 min_u64 max_u64 0x1_0000_0000_0000_0000,
          u16 add_u16 sub_u16 mul_u16 min_u16 max_u16 0x1_0000, u8 add_u8 sub_u8 mul_u8 min_u8 max_u8 0x100);


// CASTS
pub fn rk_last(n: usize) -> (r: usize) requires n > 0, ensures r == n - 1 { n - 1 }

// a const pointer to an object that is not modified while the pointer is in use
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RkShared<T> { p: std::marker::PhantomData<T> }
impl<T> RkShared<T> {
    pub uninterp spec fn null(&self) -> bool;
    pub uninterp spec fn val(&self) -> T;
    #[verifier::external_body]
    pub fn get<'a>(&self) -> (r: &'a T) requires !self.null(), ensures *r == self.val() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == self.null() { unimplemented!() }
}
#[verifier::external_body]
pub fn rk_share<T>(x: &T) -> (r: RkShared<T>) ensures !r.null(), r.val() == *x { unimplemented!() }
#[verifier::external_body]
pub fn rk_share_copy<T>(x: &RkShared<T>) -> (r: RkShared<T>) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn rk_null<T>() -> (r: RkShared<T>) ensures r.null() { unimplemented!() }

#[verifier::external_body]
pub fn rk_share_eq<T>(a: &RkShared<T>, b: &RkShared<T>) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }

// std::vector
#[verifier::external_body]
pub fn rk_clone<T: Clone>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { v.clone() }
#[verifier::external_body]
pub fn rk_vec_any<T>(n: u64) -> (r: Vec<T>) ensures r@.len() == n { unimplemented!() }
pub fn rk_vec_fill<T: Copy>(n: u64, val: T) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == val,
{
    let mut r: Vec<T> = Vec::new();
    let mut i: u64 = 0;
    while i < n
        invariant 0 <= i <= n, r@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] r@[k] == val,
        decreases n - i
    { r.push(val); i = i + 1; }
    r
}
pub fn rk_subvec<T: Copy>(v: &Vec<T>, f: u64, l: u64) -> (r: Vec<T>)
    requires f <= l <= v@.len(),
    ensures r@ =~= v@.subrange(f as int, l as int),
{
    let mut r: Vec<T> = Vec::new();
    let mut i: u64 = f;
    while i < l
        invariant f <= i <= l, l <= v@.len(), r@ =~= v@.subrange(f as int, i as int),
        decreases l - i
    { r.push(v[i as usize]); i = i + 1; }
    r
}
// moved-from vectors are left in an unspecified state
#[verifier::external_body]
pub fn rk_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@ { core::mem::take(v) }
#[verifier::external_body]
pub fn rk_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
pub fn rk_pop_back<T>(v: &mut Vec<T>) requires old(v)@.len() > 0, ensures final(v)@ =~= old(v)@.drop_last() { let _ = v.pop(); }
pub fn rk_truncate<T>(v: &mut Vec<T>, n: u64) requires n <= old(v)@.len(), ensures final(v)@ =~= old(v)@.subrange(0, n as int) { v.truncate(n as usize); }
pub fn rk_resize<T: Copy>(v: &mut Vec<T>, n: u64, val: T)
    ensures final(v)@.len() == n,
        forall|i: int| 0 <= i < n && i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> #[trigger] final(v)@[i] == val,
{
    if n as usize <= v.len() { v.truncate(n as usize); }
    else {
        let ghost o = v@;
        while (v.len() as u64) < n
            invariant o.len() <= v@.len() <= n,
              forall|i: int| 0 <= i < o.len() ==> #[trigger] v@[i] == o[i],
              forall|i: int| o.len() <= i < v@.len() ==> #[trigger] v@[i] == val,
            decreases n - v@.len()
        { v.push(val); }
    }
}
pub fn rk_assign<T: Copy>(v: &mut Vec<T>, n: u64, val: T)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == val,
{ *v = rk_vec_fill(n, val); }
// std:: algorithms
pub fn rk_fill<T: Copy>(v: &mut Vec<T>, f: u64, l: u64, val: T)
    requires f <= l <= old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < final(v)@.len() ==> #[trigger] final(v)@[i] == if f <= i < l { val } else { old(v)@[i] },
{
    let mut i = f;
    let ghost o = v@;
    while i < l
        invariant f <= i <= l <= v@.len(), v@.len() == o.len(),
          forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == if f <= k < i { val } else { o[k] },
        decreases l - i
    { v.set(i as usize, val); i = i + 1; }
}
#[verifier::external_body]
pub fn rk_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
#[verifier::external_body]
pub fn rk_reverse_range<T>(v: &mut Vec<T>, f: u64, l: u64)
    requires f <= l <= old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(), forall|i: int| #![trigger final(v)@[i]] 0 <= i < old(v)@.len() ==> final(v)@[i] == (if f <= i < l { old(v)@[f + l - 1 - i] } else { old(v)@[i] }), { unimplemented!() }
pub open spec fn seq_sorted(s: Seq<u32>, f: int, l: int) -> bool { forall|i: int, j: int| f <= i <= j < l ==> #[trigger] s[i] <= #[trigger] s[j] }
#[verifier::external_body]
pub fn rk_is_sorted(v: &Vec<u32>, f: u64, l: u64) -> (r: bool)
    requires f <= l <= v@.len(),
    ensures r == seq_sorted(v@, f as int, l as int), { unimplemented!() }
// std::lower_bound on a sorted range
#[verifier::external_body]
pub fn rk_lower_bound(v: &Vec<u32>, f: u64, l: u64, x: u32) -> (r: u64)
    requires f <= l <= v@.len(), seq_sorted(v@, f as int, l as int),
    ensures f <= r <= l, forall|i: int| f <= i < r ==> #[trigger] v@[i] < x, forall|i: int| r <= i < l ==> #[trigger] v@[i] >= x,
{ unimplemented!() }
#[verifier::external_body]
pub fn rk_upper_bound(v: &Vec<u32>, f: u64, l: u64, x: u32) -> (r: u64)
    requires f <= l <= v@.len(), seq_sorted(v@, f as int, l as int),
    ensures f <= r <= l, forall|i: int| f <= i < r ==> #[trigger] v@[i] <= x, forall|i: int| r <= i < l ==> #[trigger] v@[i] > x,
{ unimplemented!() }
// std::sort, std::stable_sort with comparator less: q is the rearrangement performed
pub open spec fn strict_weak<T>(s: Seq<T>, f: int, l: int, less: spec_fn(T, T) -> bool) -> bool {
    &&& forall|i: int| f <= i < l ==> !less(#[trigger] s[i], s[i])
    &&& forall|i: int, j: int, k: int| f <= i < l && f <= j < l && f <= k < l && #[trigger] less(s[i], s[j]) && #[trigger] less(s[j], s[k]) ==> less(s[i], s[k])
    &&& forall|i: int, j: int, k: int| f <= i < l && f <= j < l && f <= k < l && !#[trigger] less(s[i], s[j]) && !less(s[j], s[i]) && !#[trigger] less(s[j], s[k]) && !less(s[k], s[j]) ==> !less(s[i], s[k])
}
pub open spec fn rearranged<T>(o: Seq<T>, n: Seq<T>, f: int, l: int, q: Seq<int>) -> bool {
    &&& n.len() == o.len() && q.len() == o.len()
    &&& forall|i: int| 0 <= i < n.len() ==> 0 <= #[trigger] q[i] < n.len() && n[i] == o[q[i]]
    &&& forall|i: int| f <= i < l ==> f <= #[trigger] q[i] < l
    &&& forall|i: int| 0 <= i < n.len() && !(f <= i < l) ==> #[trigger] q[i] == i
    &&& forall|i: int, j: int| 0 <= i < j < n.len() ==> #[trigger] q[i] != #[trigger] q[j]
}
pub open spec fn ordered_by<T>(n: Seq<T>, f: int, l: int, less: spec_fn(T, T) -> bool) -> bool {
    forall|i: int, j: int| f <= i < j < l ==> !less(#[trigger] n[j], #[trigger] n[i])
}
pub open spec fn stable_by<T>(n: Seq<T>, f: int, l: int, less: spec_fn(T, T) -> bool, q: Seq<int>) -> bool {
    forall|i: int, j: int| f <= i < j < l && !less(#[trigger] n[i], #[trigger] n[j]) ==> q[i] < q[j]
}
#[verifier::external_body]
pub fn rk_sort<T>(v: &mut Vec<T>, f: u64, l: u64, less: Ghost<spec_fn(T, T) -> bool>)
    requires f <= l <= old(v)@.len(), strict_weak(old(v)@, f as int, l as int, less@),
    ensures ordered_by(final(v)@, f as int, l as int, less@),
        exists|q: Seq<int>| #[trigger] rearranged(old(v)@, final(v)@, f as int, l as int, q),
{ unimplemented!() }
#[verifier::external_body]
pub fn rk_stable_sort<T>(v: &mut Vec<T>, f: u64, l: u64, less: Ghost<spec_fn(T, T) -> bool>)
    requires f <= l <= old(v)@.len(), strict_weak(old(v)@, f as int, l as int, less@),
    ensures ordered_by(final(v)@, f as int, l as int, less@),
        exists|q: Seq<int>| #[trigger] rearranged(old(v)@, final(v)@, f as int, l as int, q) && stable_by(final(v)@, f as int, l as int, less@, q),
{ unimplemented!() }
