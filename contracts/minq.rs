pub open spec fn par(p: int) -> int { (p - 1) / 4 }
impl MinIDQueue {
    pub open spec fn n(&self) -> int { self.id_pos@.len() as int }
    // positions and ids are inverse to each other
    pub open spec fn wf_pos(&self) -> bool {
        &&& self.heap@.len() == self.id_pos@.len()
        &&& self.heap_size <= self.heap@.len()
        &&& self.id_pos@.len() < 0x4000_0000
        &&& forall|p: int| 0 <= p < self.heap_size ==> (#[trigger] self.heap@[p]).id < self.id_pos@.len() && self.id_pos@[self.heap@[p].id as int] == p
        &&& forall|i: int| 0 <= i < self.id_pos@.len() && #[trigger] self.id_pos@[i] != 0xFFFF_FFFFu32 ==> self.id_pos@[i] < self.heap_size && self.heap@[self.id_pos@[i] as int].id == i
    }
    pub open spec fn edge(p: int, c: int) -> bool { 0 <= p && 4 * p + 1 <= c <= 4 * p + 4 }
    // representation invariant
    pub open spec fn wf(&self) -> bool {
        &&& self.wf_pos()
        &&& forall|p: int, c: int| MinIDQueue::edge(p, c) && c < self.heap_size ==> (#[trigger] self.heap@[p]).key <= (#[trigger] self.heap@[c]).key
    }
    // order violated only between h and its parent
    pub open spec fn order_but_up(&self, h: int) -> bool {
        &&& forall|p: int, c: int| MinIDQueue::edge(p, c) && c < self.heap_size && c != h ==> (#[trigger] self.heap@[p]).key <= (#[trigger] self.heap@[c]).key
        &&& forall|p: int, c: int| MinIDQueue::edge(p, h) && MinIDQueue::edge(h, c) && c < self.heap_size ==> (#[trigger] self.heap@[p]).key <= (#[trigger] self.heap@[c]).key
    }
    // order violated only between h and its children
    pub open spec fn order_but_down(&self, h: int) -> bool {
        &&& forall|p: int, c: int| MinIDQueue::edge(p, c) && c < self.heap_size && p != h ==> (#[trigger] self.heap@[p]).key <= (#[trigger] self.heap@[c]).key
        &&& forall|p: int, c: int| MinIDQueue::edge(p, h) && MinIDQueue::edge(h, c) && c < self.heap_size ==> (#[trigger] self.heap@[p]).key <= (#[trigger] self.heap@[c]).key
    }
    // abstract view: a partial map from ids to keys
    pub open spec fn has(&self, i: int) -> bool { 0 <= i < self.id_pos@.len() && self.id_pos@[i] != 0xFFFF_FFFFu32 }
    pub open spec fn key(&self, i: int) -> u32 { self.heap@[self.id_pos@[i] as int].key }
    pub open spec fn same_map(&self, o: &MinIDQueue) -> bool {
        &&& self.id_pos@.len() == o.id_pos@.len()
        &&& self.heap_size == o.heap_size
        &&& forall|i: int| 0 <= i < self.id_pos@.len() ==> (#[trigger] self.id_pos@[i] != 0xFFFF_FFFFu32) == o.has(i) && (self.has(i) ==> self.key(i) == o.key(i))
    }
    // the positions beyond heap_size are not touched
    pub open spec fn same_tail(&self, o: &MinIDQueue) -> bool {
        &&& self.heap@.len() == o.heap@.len()
        &&& forall|p: int| self.heap_size <= p < self.heap@.len() ==> #[trigger] self.heap@[p] == o.heap@[p]
    }
}
pub proof fn lemma_root_min(q: &MinIDQueue, p: int)
    requires q.wf(), 0 <= p < q.heap_size,
    ensures q.heap@[0].key <= q.heap@[p].key
    decreases p
{
    if p > 0 { assert(MinIDQueue::edge(par(p), p)); assert(q.heap@[par(p)].key <= q.heap@[p].key); lemma_root_min(q, par(p)); }
}
pub proof fn lemma_pigeon(s: Seq<int>, n: int, x: int)
    requires s.no_duplicates(), forall|k: int| 0 <= k < s.len() ==> 0 <= #[trigger] s[k] < n && s[k] != x, 0 <= x < n,
    ensures s.len() < n
{
    s.unique_seq_to_set();
    let full = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    let rem = full.remove(x);
    assert(s.to_set().subset_of(rem)) by {
        assert forall|y: int| s.to_set().contains(y) implies rem.contains(y) by {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == y;
            assert(0 <= s[k] < n);
        }
    }
    vstd::set_lib::lemma_len_subset(s.to_set(), rem);
}
pub proof fn lemma_has_room(q: &MinIDQueue, x: int)
    requires q.wf_pos(), 0 <= x < q.n(), !q.has(x),
    ensures q.heap_size < q.n()
{
    let s = Seq::new(q.heap_size as nat, |p: int| q.heap@[p].id as int);
    assert(s.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies s[a] != s[b] by {
            assert(q.id_pos@[q.heap@[a].id as int] == a); assert(q.id_pos@[q.heap@[b].id as int] == b);
        }
    }
    assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] s[k] < q.n() && s[k] != x by {
        assert(q.id_pos@[q.heap@[k].id as int] == k);
    }
    lemma_pigeon(s, q.n(), x);
}
