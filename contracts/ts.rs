impl TimestampFlags {
    // representation invariant: no stored timestamp lies in the future, and 0 is never "now"
    pub open spec fn wf(&self) -> bool {
        &&& self.current_timestamp >= 1
        &&& forall|i: int| 0 <= i < self.last_seen@.len() ==> #[trigger] self.last_seen@[i] <= self.current_timestamp
    }
    // abstract view: is flag i set?
    pub open spec fn flag(&self, i: int) -> bool { self.last_seen@[i] == self.current_timestamp }
}
