// the elements of the first k positions selected by the filter, in order
pub open spec fn kept(f: &BitVector, s: Seq<u32>, k: int, want: bool) -> Seq<u32>
    decreases k
{
    if k <= 0 { Seq::empty() } else if f.get(k - 1) == want { kept(f, s, k - 1, want).push(s[k - 1]) } else { kept(f, s, k - 1, want) }
}
pub proof fn lemma_kept_len(f: &BitVector, s: Seq<u32>, k: int, want: bool)
    ensures kept(f, s, k, want).len() <= if k >= 0 { k } else { 0 }
    decreases k
{ if k > 0 { lemma_kept_len(f, s, k - 1, want); } }
