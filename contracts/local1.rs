// position of id x among the mapped ids: the number of lower ids
pub open spec fn local_of(m: LocalIDMapper, x: int) -> u64 { count(m.bits(), x) as u64 }
