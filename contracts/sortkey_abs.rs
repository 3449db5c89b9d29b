// an arbitrary pure key function
pub uninterp spec fn vk_key_spec(x: u32) -> u32;
#[verifier::external_body]
pub fn vk_key(x: u32) -> (r: u32) ensures r == vk_key_spec(x) { unimplemented!() }
