#raw
// comparing a set is comparing its elements in order
proof fn lemma_refs_skip<'a, T: 'a>(s: Seq<(T, Unit)>)
    requires s.len() > 0,
    ensures refs::<T>(s).skip(1) == refs::<T>(s.skip(1)), refs::<T>(s)[0] == &s[0].0,
{
    assert(refs::<T>(s).skip(1) =~= refs::<T>(s.skip(1)));
}
proof fn lemma_unit_eq<'a, T: PartialEq + 'a>(s: Seq<(T, Unit)>, t: Seq<(T, Unit)>)
    ensures seq_eq(prefs::<T, Unit>(s), prefs::<T, Unit>(t)) == seq_eq(refs::<T>(s), refs::<T>(t)),
{
    lemma_prefs::<T, Unit>(s);
    lemma_prefs::<T, Unit>(t);
    if s.len() == t.len() {
        assert forall|i: int| #![trigger prefs::<T, Unit>(s)[i]] #![trigger refs::<T>(s)[i]] 0 <= i < s.len() implies
            <(&T, &Unit) as EqItem>::eqi(prefs::<T, Unit>(s)[i], prefs::<T, Unit>(t)[i])
                == <&T as EqItem>::eqi(refs::<T>(s)[i], refs::<T>(t)[i]) by {}
    }
}
proof fn lemma_unit_cmp<'a, T: Ord + 'a>(s: Seq<(T, Unit)>, t: Seq<(T, Unit)>)
    ensures lex_cmp(prefs::<T, Unit>(s), prefs::<T, Unit>(t)) == lex_cmp(refs::<T>(s), refs::<T>(t)),
    decreases s.len(),
{
    lemma_prefs::<T, Unit>(s);
    lemma_prefs::<T, Unit>(t);
    if s.len() > 0 && t.len() > 0 {
        lemma_refs_skip(s);
        lemma_refs_skip(t);
        lemma_unit_cmp(s.skip(1), t.skip(1));
    }
}
proof fn lemma_unit_pcmp<'a, T: PartialOrd + 'a>(s: Seq<(T, Unit)>, t: Seq<(T, Unit)>)
    ensures lex_pcmp(prefs::<T, Unit>(s), prefs::<T, Unit>(t)) == lex_pcmp(refs::<T>(s), refs::<T>(t)),
    decreases s.len(),
{
    lemma_prefs::<T, Unit>(s);
    lemma_prefs::<T, Unit>(t);
    if s.len() > 0 && t.len() > 0 {
        lemma_refs_skip(s);
        lemma_refs_skip(t);
        lemma_unit_pcmp(s.skip(1), t.skip(1));
    }
}
