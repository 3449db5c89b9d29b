fn min_to
  ensures
    - *final(x) == if y < *old(x) { y } else { *old(x) }

fn max_to
  ensures
    - *final(x) == if y > *old(x) { y } else { *old(x) }

fn first_min_element_position_of
  requires
    - 0 < v@.len() < 0x1_0000_0000
  ensures
    - r < v@.len()
    - forall|k: int| 0 <= k < v@.len() ==> v@[r as int] <= #[trigger] v@[k]
    - forall|k: int| 0 <= k < r ==> v@[r as int] < #[trigger] v@[k]
  loop 0 invariant
    - 1 <= i <= v@.len()
    - pos < i
    - forall|k: int| 0 <= k < i ==> v@[pos as int] <= #[trigger] v@[k]
    - forall|k: int| 0 <= k < pos ==> v@[pos as int] < #[trigger] v@[k]
  loop 0 decreases v@.len() - i

fn first_max_element_position_of
  requires
    - 0 < v@.len() < 0x1_0000_0000
  ensures
    - r < v@.len()
    - forall|k: int| 0 <= k < v@.len() ==> v@[r as int] >= #[trigger] v@[k]
    - forall|k: int| 0 <= k < r ==> v@[r as int] > #[trigger] v@[k]
  loop 0 invariant
    - 1 <= i <= v@.len()
    - pos < i
    - forall|k: int| 0 <= k < i ==> v@[pos as int] >= #[trigger] v@[k]
    - forall|k: int| 0 <= k < pos ==> v@[pos as int] > #[trigger] v@[k]
  loop 0 decreases v@.len() - i

fn min_element_of sig=/\(const std::vector<[^,]*> &\)/ rust=/min_element_of_1/
  requires
    - 0 < v@.len() < 0x1_0000_0000
  ensures
    - exists|k: int| 0 <= k < v@.len() && #[trigger] v@[k] == r
    - forall|k: int| 0 <= k < v@.len() ==> r <= #[trigger] v@[k]

fn max_element_of sig=/\(const std::vector<[^,]*> &\)/ rust=/max_element_of_1/
  requires
    - 0 < v@.len() < 0x1_0000_0000
  ensures
    - exists|k: int| 0 <= k < v@.len() && #[trigger] v@[k] == r
    - forall|k: int| 0 <= k < v@.len() ==> r >= #[trigger] v@[k]

fn min_element_of sig=/\(const std::vector<.*> &, const / rust=/min_element_of_2/
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - v@.len() == 0 ==> r == empty_value
    - v@.len() > 0 ==> exists|k: int| 0 <= k < v@.len() && #[trigger] v@[k] == r
    - forall|k: int| 0 <= k < v@.len() ==> r <= #[trigger] v@[k]

fn max_element_of sig=/\(const std::vector<.*> &, const / rust=/max_element_of_2/
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - v@.len() == 0 ==> r == empty_value
    - v@.len() > 0 ==> exists|k: int| 0 <= k < v@.len() && #[trigger] v@[k] == r
    - forall|k: int| 0 <= k < v@.len() ==> r >= #[trigger] v@[k]
