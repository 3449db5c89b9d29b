fn first_max_element_position_of
  requires
    - 0 < v@.len() < 0x1_0000_0000
  ensures
    - r < v@.len()
    - forall|k: int| 0 <= k < v@.len() ==> v@[r as int] >= #[trigger] v@[k]
    - forall|k: int| 0 <= k < r ==> v@[r as int] > #[trigger] v@[k]
  loop 0 invariant
    - 1 <= i <= v@.len()
    - pos < i
    - forall|k: int| 0 <= k < i ==> v@[pos as int] >= #[trigger] v@[k]
    - forall|k: int| 0 <= k < pos ==> v@[pos as int] > #[trigger] v@[k]
  loop 0 decreases v@.len() - i

fn max_element_of sig=/\(const std::vector<[^,]*> &\)/ rust=/max_element_of_1/
  requires
    - 0 < v@.len() < 0x1_0000_0000
  ensures
    - exists|k: int| 0 <= k < v@.len() && #[trigger] v@[k] == r
    - forall|k: int| 0 <= k < v@.len() ==> r >= #[trigger] v@[k]

