#item struct BTreeMap +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V)
#prop C15
#fn Clone@BTreeMap::clone -> r +keeptrait
    ensures r == *self,
#raw
#raw
spec fn rels<K, V, const N: usize>(r: Option<NodePtr<K, V, N>>) -> Seq<(K, V)> {
    match r { None => Seq::empty(), Some(n) => nels(*n) }
}
spec fn mels<K, V, const N: usize>(m: BTreeMap<K, V, N>) -> Seq<(K, V)> { rels(m.root) }

spec fn mwf<K: Ord, V, const N: usize>(m: BTreeMap<K, V, N>) -> bool {
    &&& okn::<N>()
    &&& m.root is Some ==> shp(an(m.root->0), 1)
    &&& sorted(mels(m))
    &&& m.len == mels(m).len()
}

