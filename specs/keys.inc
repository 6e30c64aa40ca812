#raw
// keys, and values, of a sequence of entries
spec fn keys_of<K, V>(s: Seq<(K, V)>) -> Seq<K> { s.map_values(|e: (K, V)| e.0) }
spec fn vals_of<K, V>(s: Seq<(K, V)>) -> Seq<V> { s.map_values(|e: (K, V)| e.1) }
proof fn lemma_keys_cat<K, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>)
    ensures keys_of(cat(l, e, r)) == keys_of(l) + seq![e.0] + keys_of(r),
{
    assert(keys_of(cat(l, e, r)) =~= keys_of(l) + seq![e.0] + keys_of(r));
}
proof fn lemma_same_keys_sorted<K: Ord, V>(s: Seq<(K, V)>, t: Seq<(K, V)>)
    requires keys_of(s) == keys_of(t), sorted(s),
    ensures sorted(t), s.len() == t.len(),
{
    assert(keys_of(s).len() == s.len() && keys_of(t).len() == t.len());
    assert forall|i: int| 0 <= i < s.len() implies s[i].0 == t[i].0 by {
        assert(keys_of(s)[i] == s[i].0 && keys_of(t)[i] == t[i].0);
    }
    reveal(sorted);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies lt(#[trigger] t[i].0, #[trigger] t[j].0) by {
        assert(lt(s[i].0, s[j].0));
    }
}
