// Sequences.
proof fn lemma_filter_take<A>(s: Seq<A>, k: int, p: spec_fn(A) -> bool)
    requires 0 <= k < s.len(),
    ensures s.take(k + 1).filter(p) == (if p(s[k]) { s.take(k).filter(p).push(s[k]) } else { s.take(k).filter(p) }),
{
    reveal(Seq::filter);
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
}
proof fn lemma_set_take(s: Seq<RID>, k: int)
    requires 0 <= k < s.len(),
    ensures s.take(k + 1).to_set() == s.take(k).to_set().insert(s[k]), s.no_duplicates() ==> !s.take(k).to_set().contains(s[k]),
{
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    assert(s.take(k + 1).to_set() =~= s.take(k).to_set().insert(s[k])) by {
        assert forall|x: RID| #[trigger] s.take(k + 1).to_set().contains(x) <==> s.take(k).to_set().insert(s[k]).contains(x) by {
            if s.take(k + 1).contains(x) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] s.take(k + 1)[i]) == x; if i < k { assert(s.take(k)[i] == x); } }
            if s.take(k).contains(x) { let i = choose|i: int| 0 <= i < k && (#[trigger] s.take(k)[i]) == x; assert(s.take(k + 1)[i] == x); }
            if x == s[k] { assert(s.take(k + 1)[k] == x); }
        }
    }
}
#[verifier::external_body]
pub fn rids_clone(v: &Vec<RID>) -> (ret: Vec<RID>) ensures ret@ == v@, { v.clone() }
