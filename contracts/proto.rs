pub open spec fn byte(s: Seq<i8>, i: int) -> int { if s[i] >= 0 { s[i] as int } else { s[i] + 256 } }
pub open spec fn more(s: Seq<i8>, i: int) -> bool { byte(s, i) >= 128 }
pub open spec fn pay(s: Seq<i8>, i: int) -> int { byte(s, i) % 128 }
// value of the n base 128 digits starting at b, least significant first
pub open spec fn digits(s: Seq<i8>, b: int, n: int) -> int decreases n { if n <= 0 { 0 } else { digits(s, b, n - 1) + pay(s, b + n - 1) * p128(n - 1) } }
pub open spec fn p128(n: int) -> int decreases n { if n <= 0 { 1 } else { 128 * p128(n - 1) } }
// the bytes b .. b+n-1 are one complete varint: only the last one has no continuation bit
pub open spec fn varint_at(s: Seq<i8>, b: int, n: int) -> bool {
    &&& n >= 1 && b + n <= s.len()
    &&& forall|i: int| 0 <= i < n - 1 ==> #[trigger] more(s, b + i)
    &&& !more(s, b + n - 1)
}
pub proof fn lemma_unique(s: Seq<i8>, b: int, n: int, m: int) requires varint_at(s, b, n), varint_at(s, b, m), ensures n == m {
    if n < m { assert(more(s, b + (n - 1))); } else if m < n { assert(more(s, b + (m - 1))); }
}
pub proof fn lemma_p128(k: int) requires 0 <= k <= 9, ensures p128(k) == (1u64 << ((7 * k) as u64)), p128(9) * 2 == 0x1_0000_0000_0000_0000, p128(k + 1) == 128 * p128(k)
{
    reveal_with_fuel(p128, 11);
    assert((1u64 << 0) == 1 && (1u64 << 7) == 128 && (1u64 << 14) == 0x4000 && (1u64 << 21) == 0x20_0000 && (1u64 << 28) == 0x1000_0000 && (1u64 << 35) == 0x8_0000_0000
        && (1u64 << 42) == 0x400_0000_0000 && (1u64 << 49) == 0x2_0000_0000_0000 && (1u64 << 56) == 0x100_0000_0000_0000 && (1u64 << 63) == 0x8000_0000_0000_0000) by(bit_vector);
}
pub proof fn lemma_digits(s: Seq<i8>, b: int, n: int) requires 0 <= n, ensures 0 <= digits(s, b, n) < p128(n), p128(n) >= 1 decreases n
{
    if n > 0 { lemma_digits(s, b, n - 1); let p = p128(n - 1); let d = pay(s, b + n - 1); assert(0 <= d * p <= 127 * p) by(nonlinear_arith) requires 0 <= d <= 127, p >= 1; }
}
// adding one digit with shift and or
pub proof fn lemma_or(n: u64, x: i8, shift: u64, k: int, s: Seq<i8>, b: int)
    requires 0 <= k <= 9, shift == 7 * k, n == digits(s, b, k), s[b + k] == x, k == 9 ==> 0 <= x <= 1,
    ensures ({ let v = ((((x as u8) as i32) & 127i32) as u64) << shift; (n | v) == digits(s, b, k + 1) }), digits(s, b, k + 1) < 0x1_0000_0000_0000_0000
{
    lemma_p128(k); lemma_digits(s, b, k);
    let d = (((x as u8) as i32) & 127i32) as u64;
    assert(d == pay(s, b + k) && d < 128) by {
        assert(((((x as u8) as i32) & 127i32) as u64) == (if x >= 0 { x as u64 } else { (x + 128) as u64 })) by(bit_vector);
    }
    let one = 1u64 << shift;
    if k <= 8 {
        assert((n | (d << shift)) == n + (d << shift) && (d << shift) == d * one) by(bit_vector) requires n < one, one == (1u64 << shift), d < 128, shift <= 56;
    } else {
        assert(d <= 1);
        assert((n | (d << shift)) == n + (d << shift) && (d << shift) == d * one) by(bit_vector) requires n < one, one == (1u64 << shift), d <= 1, shift == 63;
    }
    assert(d as int * p128(k) == d * one);
    assert(digits(s, b, k + 1) == digits(s, b, k) + pay(s, b + k) * p128(k));
}
// the standard encoding
pub open spec fn enc(x: int) -> Seq<i8> decreases x { if x < 128 { seq![x as i8] } else { seq![(x % 128 - 128) as i8] + enc(x / 128) } }
// decoding the encoding of x, wherever it is in a buffer, gives x
pub proof fn lemma_enc(x: int, s: Seq<i8>, b: int)
    requires 0 <= x, 0 <= b, b + enc(x).len() <= s.len(), s.subrange(b, b + enc(x).len()) == enc(x),
    ensures varint_at(s, b, enc(x).len() as int), digits(s, b, enc(x).len() as int) == x,
    decreases x
{
    let e = enc(x);
    assert forall|i: int| 0 <= i < e.len() implies s[b + i] == #[trigger] e[i] by { assert(s.subrange(b, b + e.len())[i] == e[i]); }
    if x < 128 { assert(s[b + 0] == e[0]); reveal_with_fuel(digits, 2); reveal_with_fuel(p128, 2); assert(x % 128 == x); }
    else {
        let f = enc(x / 128);
        assert(e.len() == f.len() + 1);
        assert(s.subrange(b + 1, b + 1 + f.len()) =~= f) by { assert forall|i: int| 0 <= i < f.len() implies s[b + 1 + i] == #[trigger] f[i] by { assert(s[b + (i + 1)] == e[i + 1]); } }
        lemma_enc(x / 128, s, b + 1);
        lemma_shift(s, b, f.len() as int);
        assert(s[b + 0] == e[0]);
        assert forall|i: int| 0 <= i < e.len() - 1 implies #[trigger] more(s, b + i) by { if i > 0 { assert(more(s, b + 1 + (i - 1))); } }
    }
}
pub proof fn lemma_shift(s: Seq<i8>, b: int, n: int) requires n >= 0, ensures digits(s, b, n + 1) == pay(s, b) + 128 * digits(s, b + 1, n) decreases n
{
    reveal_with_fuel(p128, 2);
    if n == 0 { reveal_with_fuel(digits, 2); }
    else {
        lemma_shift(s, b, n - 1);
        let p = p128(n - 1); let d = pay(s, b + n);
        assert(d * (128 * p) == 128 * (d * p)) by(nonlinear_arith);
    }
}
// a number below 2^64 needs at most ten bytes
pub proof fn lemma_enc_len(x: int, n: int) requires 0 <= x < p128(n), n >= 1, ensures 1 <= enc(x).len() <= n decreases n
{ if x >= 128 { if n == 1 { reveal_with_fuel(p128, 2); } lemma_enc_len(x / 128, n - 1); } }
pub proof fn lemma_enc_u64(x: u64) ensures 1 <= enc(x as int).len() <= 10 { lemma_p128(9); lemma_enc_len(x as int, 10); }
// zig-zag
pub open spec fn zig(x: int) -> int { if x >= 0 { 2 * x } else { -2 * x - 1 } }
pub proof fn lemma_zig(x: i64) ensures 0 <= zig(x as int) < 0x1_0000_0000_0000_0000, unzig(zig(x as int)) == x {}
pub open spec fn unzig(y: int) -> int { if y % 2 == 1 { -(y / 2) - 1 } else { y / 2 } }
// callbacks: called with what the message contains, strings within the buffer
#[verifier::external_body] pub fn on_varint(f: u64, v: u64) {}
#[verifier::external_body] pub fn on_double(f: u64, v: f64) {}
#[verifier::external_body] pub fn on_string(f: u64, buf: &Vec<i8>, b: u64, e: u64) requires b <= e <= buf@.len() {}
#[verifier::external_body] pub fn rk_read_f64(buf: &Vec<i8>, p: u64) -> f64 requires p + 8 <= buf@.len() { unimplemented!() }
#[verifier::external_body] pub fn rk_read_f32(buf: &Vec<i8>, p: u64) -> f32 requires p + 4 <= buf@.len() { unimplemented!() }
#[verifier::external_body] pub fn rk_float_cast(x: f32) -> f64 { x as f64 }

pub proof fn lemma_or_c(x: i8)
    ensures ((((x as i32) & 128i32) != 0) == (x < 0)), (1u32 << 7u32) == 128, ((!128i32) as u8) == 127
{ assert((1u32 << 7u32) == 128) by(bit_vector); assert(((!128i32) as u8) == 127) by(bit_vector); assert((((x as i32) & 128i32) != 0) == (x < 0)) by(bit_vector); }
// k bytes with continuation bit: a varint here is longer than k
pub proof fn lemma_long(s: Seq<i8>, b: int, k: int)
    requires k >= 0, forall|i: int| 0 <= i < k ==> #[trigger] more(s, b + i),
    ensures forall|n: int| #[trigger] varint_at(s, b, n) ==> n > k
{ assert forall|n: int| #[trigger] varint_at(s, b, n) implies n > k by { if n <= k { assert(more(s, b + (n - 1))); } } }
pub proof fn lemma_last(s: Seq<i8>, b: int, k: int)
    requires 0 <= k, 0 <= b, b + k < s.len(), forall|i: int| 0 <= i < k ==> #[trigger] more(s, b + i), s[b + k] >= 0,
    ensures varint_at(s, b, k + 1), forall|n: int| #[trigger] varint_at(s, b, n) ==> n == k + 1, k == 9 && s[b + k] > 1 ==> digits(s, b, k + 1) >= 0x1_0000_0000_0000_0000
{
    assert forall|n: int| #[trigger] varint_at(s, b, n) implies n == k + 1 by { lemma_unique(s, b, n, k + 1); }
    if k == 9 && s[b + k] > 1 { lemma_p128(9); lemma_digits(s, b, 9); let d = pay(s, b + 9); let p = p128(9); assert(d * p >= 2 * p) by(nonlinear_arith) requires d >= 2, p >= 1; }
}
