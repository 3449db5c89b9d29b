functor vp::OnVarint on_varint
functor vp::OnDouble on_double
functor vp::OnString on_string

fn decode_varint_as_uint64_and_advance_first_parameter
  pointers begin end into buf
  requires
    - *old(begin) <= end
    - end == buf@.len()
    - buf@.len() < 0x4000_0000_0000_0000
  ensures
    - r.is_ok() ==> 1 <= *final(begin) - *old(begin) <= 10 && varint_at(buf@, *old(begin) as int, *final(begin) - *old(begin)) && digits(buf@, *old(begin) as int, *final(begin) - *old(begin)) == r.unwrap()
    - r.is_err() ==> forall|n: int| 1 <= n <= 10 && #[trigger] varint_at(buf@, *old(begin) as int, n) ==> digits(buf@, *old(begin) as int, n) >= 0x1_0000_0000_0000_0000
  entry
    let ghost b0 = *begin as int;
    proof { lemma_or_c(0); }
  loop 0 invariant
    - b0 <= *begin < end
    - shift == 7 * (*begin - b0)
    - *begin - b0 <= 9
    - n == digits(buf@, b0, *begin - b0)
    - forall|i: int| 0 <= i < *begin - b0 ==> #[trigger] more(buf@, b0 + i)
  loop 0 begin
    proof { let x = buf@[*begin as int]; let k = *begin - b0; lemma_or_c(x); if k <= 8 { lemma_or(n, x, shift, k, buf@, b0); } lemma_long(buf@, b0, k); assert(x < 0 ==> more(buf@, b0 + k)); }
  loop 0 decreases end - *begin
  loop 0 after
    proof { let x = buf@[*begin as int]; let k = *begin - b0; lemma_or_c(x); if k <= 8 || (0 <= x <= 1) { lemma_or(n, x, shift, k, buf@, b0); } lemma_last(buf@, b0, k); }

fn zigzag_convert_uint64_to_int64
  ensures
    - r == unzig(x as int)
  entry
    proof { assert((x & 1) == x % 2 && (x >> 1) == x / 2) by(bit_vector); }

fn decode_protobuf_message_with_callbacks
  pointers begin end into buf
  requires
    - begin <= end
    - end == buf@.len()
    - buf@.len() < 0x4000_0000_0000_0000
  loop 0 invariant
    - begin <= end
  loop 0 decreases end - begin
