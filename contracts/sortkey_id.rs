// the identity as key
pub open spec fn vk_key_spec(x: u32) -> u32 { x }
pub fn vk_key(x: u32) -> (r: u32) ensures r == vk_key_spec(x) { x }
