// position of id x among the mapped ids (bounded check C17 covers the mapper itself)
pub uninterp spec fn local_of(m: LocalIDMapper, x: int) -> u64;
#[verifier::external_body]
pub fn LocalIDMapper_to_local(m: &LocalIDMapper, x: u64) -> (r: u64) ensures r == local_of(*m, x as int) { unimplemented!() }

