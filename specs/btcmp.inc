#raw
// --- comparison: of the entries, in order ------------------------------------
impl<'a, K, V, const N: usize> VIter for Iter<'a, K, V, N> {
    type Item = (&'a K, &'a V);
    spec fn todo(&self) -> Seq<(&'a K, &'a V)> { prefs(flat(self.iter.work@)) }
    #[verifier::prophetic]
    spec fn ok(&self) -> bool { ready(self.iter) && makes(self.iter.make_node_iter) }
    // forwards to the contract of the real `next`
    fn next(&mut self) -> (r: Option<(&'a K, &'a V)>) {
        let ghost o = *self;
        let r = Iter::<'a, K, V, N>::next(self);
        proof {
            match r {
                Some(k) => { assert(prefs::<K, V>(seq![(*k.0, *k.1)] + flat(self.iter.work@)).skip(1) =~= prefs(flat(self.iter.work@))); },
                None => { lemma_ends(self.iter.work@); },
            }
        }
        r
    }
}
proof fn lemma_over_todo<'a, K, V, const N: usize>(i: Iter<'a, K, V, N>, s: Seq<(K, V)>)
    requires over(i.iter, s),
    ensures i.ok(), i.todo() == prefs::<K, V>(s),
{
}
#source src/btree.rs
#include btsubst.inc
#prop C16
#fn PartialEq@BTreeMap::eq -> r +where=K:Ord
    requires mwf(*self), mwf(*other),
    ensures r == seq_eq(prefs::<K, V>(mels(*self)), prefs::<K, V>(mels(*other))),
@begin
    proof {
        lemma_prefs(mels(*self)); lemma_prefs(mels(*other)); lemma_mwf(*self); lemma_mwf(*other);
        assert forall|i: Iter<'_, K, V, N>, s: Seq<(K, V)>| #[trigger] over(i.iter, s) implies i.ok() && i.todo() == prefs::<K, V>(s) by { lemma_over_todo(i, s); }
    }
@sub ([\w.]+\(\))\.zip\( => vzip(\1, 
@sub \.all\(\|\((\w+), (\w+)\)\| \1 == \2\) => .vall_eq()
#fn PartialOrd@BTreeMap::partial_cmp -> r +where=K:Ord
    requires mwf(*self), mwf(*other),
    ensures r == lex_pcmp(prefs::<K, V>(mels(*self)), prefs::<K, V>(mels(*other))),
@sub \.partial_cmp\( => .vpcmp(
@begin
    proof {
        assert forall|i: Iter<'_, K, V, N>, s: Seq<(K, V)>| #[trigger] over(i.iter, s) implies i.ok() && i.todo() == prefs::<K, V>(s) by { lemma_over_todo(i, s); }
    }
#fn Ord@BTreeMap::cmp -> r
    requires mwf(*self), mwf(*other),
    ensures r == lex_cmp(prefs::<K, V>(mels(*self)), prefs::<K, V>(mels(*other))),
@sub \.cmp\( => .vcmp(
@begin
    proof {
        assert forall|i: Iter<'_, K, V, N>, s: Seq<(K, V)>| #[trigger] over(i.iter, s) implies i.ok() && i.todo() == prefs::<K, V>(s) by { lemma_over_todo(i, s); }
    }
