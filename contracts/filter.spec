fn inplace_keep_element_of_vector_if
  requires
    - keep_filter.room()
    - keep_filter.n() == old(vec)@.len()
  ensures
    - final(vec)@ =~= kept(keep_filter, old(vec)@, old(vec)@.len() as int, true)
  loop 0 invariant
    - vec@.len() == old(vec)@.len()
    - in_ <= s
    - out <= in_
    - out == kept(keep_filter, old(vec)@, in_ as int, true).len()
    - forall|k: int| 0 <= k < out ==> #[trigger] vec@[k] == kept(keep_filter, old(vec)@, in_ as int, true)[k]
    - forall|k: int| in_ <= k < vec@.len() ==> #[trigger] vec@[k] == old(vec)@[k]
  loop 0 decreases s - in_

fn inplace_remove_element_from_vector_if
  requires
    - remove_filter.room()
    - remove_filter.n() == old(vec)@.len()
  ensures
    - final(vec)@ =~= kept(remove_filter, old(vec)@, old(vec)@.len() as int, false)
  loop 0 invariant
    - vec@.len() == old(vec)@.len()
    - in_ <= s
    - out <= in_
    - out == kept(remove_filter, old(vec)@, in_ as int, false).len()
    - forall|k: int| 0 <= k < out ==> #[trigger] vec@[k] == kept(remove_filter, old(vec)@, in_ as int, false)[k]
    - forall|k: int| in_ <= k < vec@.len() ==> #[trigger] vec@[k] == old(vec)@[k]
  loop 0 decreases s - in_

fn keep_element_of_vector_if
  ret res
  requires
    - keep_filter.room()
    - keep_filter.n() == vec@.len()
  ensures
    - res@ =~= kept(keep_filter, vec@, vec@.len() as int, true)

fn remove_element_from_vector_if
  ret res
  requires
    - keep_filter.room()
    - keep_filter.n() == vec@.len()
  ensures
    - res@ =~= kept(keep_filter, vec@, vec@.len() as int, false)

