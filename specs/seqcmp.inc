#raw
// ---------------------------------------------------------------------------
// Sequences compared by their contents.  `eq_spec`, `partial_cmp_spec` and
// `cmp_spec` stand for what the elements' own comparison answers.
// ---------------------------------------------------------------------------
// what an iterator yields, as something that can be compared
trait EqItem: Sized { spec fn eqi(a: Self, b: Self) -> bool; }
trait PcmpItem: Sized { spec fn pci(a: Self, b: Self) -> Option<Ordering>; }
trait CmpItem: Sized { spec fn cmi(a: Self, b: Self) -> Ordering; }
impl<'a, T: PartialEq> EqItem for &'a T { spec fn eqi(a: &'a T, b: &'a T) -> bool { (*a).eq_spec(&*b) } }
impl<'a, T: PartialOrd> PcmpItem for &'a T { spec fn pci(a: &'a T, b: &'a T) -> Option<Ordering> { (*a).partial_cmp_spec(&*b) } }
impl<'a, T: Ord> CmpItem for &'a T { spec fn cmi(a: &'a T, b: &'a T) -> Ordering { (*a).cmp_spec(&*b) } }
// pairs: both parts equal; the first difference decides
impl<'a, K: PartialEq, V: PartialEq> EqItem for (&'a K, &'a V) {
    spec fn eqi(a: (&'a K, &'a V), b: (&'a K, &'a V)) -> bool { (*a.0).eq_spec(&*b.0) && (*a.1).eq_spec(&*b.1) }
}
impl<'a, K: PartialOrd, V: PartialOrd> PcmpItem for (&'a K, &'a V) {
    spec fn pci(a: (&'a K, &'a V), b: (&'a K, &'a V)) -> Option<Ordering> {
        match (*a.0).partial_cmp_spec(&*b.0) { Some(Ordering::Equal) => (*a.1).partial_cmp_spec(&*b.1), o => o }
    }
}
impl<'a, K: Ord, V: Ord> CmpItem for (&'a K, &'a V) {
    spec fn cmi(a: (&'a K, &'a V), b: (&'a K, &'a V)) -> Ordering {
        match (*a.0).cmp_spec(&*b.0) { Ordering::Equal => (*a.1).cmp_spec(&*b.1), o => o }
    }
}
// equal elements in the same order
spec fn seq_eq<T: EqItem>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> T::eqi(#[trigger] a[i], b[i])
}
// lexicographic order: the first place where they differ decides, then the length
spec fn lex_cmp<T: CmpItem>(a: Seq<T>, b: Seq<T>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else { match T::cmi(a[0], b[0]) { Ordering::Equal => lex_cmp(a.skip(1), b.skip(1)), o => o } }
}
spec fn lex_pcmp<T: PcmpItem>(a: Seq<T>, b: Seq<T>) -> Option<Ordering>
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Some(Ordering::Equal) } else { Some(Ordering::Less) } }
    else if b.len() == 0 { Some(Ordering::Greater) }
    else { match T::pci(a[0], b[0]) { Some(Ordering::Equal) => lex_pcmp(a.skip(1), b.skip(1)), o => o } }
}

// std's adapters on such an iterator: proved here from `next`'s contract
struct VZip<A, B> { a: A, b: B }
fn vzip<A: VIter, B: VIter>(a: A, b: B) -> (r: VZip<A, B>)
    requires a.ok(), b.ok(),
    ensures r.a == a, r.b == b,
{ VZip { a, b } }
trait VSeqCmp: VIter {
    // a.cmp(b), a.partial_cmp(b)
    fn vcmp(self, b: Self) -> (r: Ordering)
        where Self::Item: CmpItem, Self: Sized
        requires self.ok(), b.ok(),
        ensures r == lex_cmp(self.todo(), b.todo());
    fn vpcmp(self, b: Self) -> (r: Option<Ordering>)
        where Self::Item: PcmpItem, Self: Sized
        requires self.ok(), b.ok(),
        ensures r == lex_pcmp(self.todo(), b.todo());
    // a.eq(b)
    fn veq(self, b: Self) -> (r: bool)
        where Self::Item: EqItem, Self: Sized
        requires self.ok(), b.ok(),
        ensures r == seq_eq(self.todo(), b.todo());
    // a.any(|y| x == y)
    fn vany_eq(self, x: Self::Item) -> (r: bool)
        where Self::Item: EqItem, Self: Sized
        requires self.ok(),
        ensures r == exists|i: int| 0 <= i < self.todo().len() && <Self::Item as EqItem>::eqi(x, #[trigger] self.todo()[i]);
}
impl<I: VIter> VSeqCmp for I {
    #[verifier::external_body]
    fn vcmp(self, b: Self) -> (r: Ordering) where Self::Item: CmpItem { unimplemented!() }
    #[verifier::external_body]
    fn vpcmp(self, b: Self) -> (r: Option<Ordering>) where Self::Item: PcmpItem { unimplemented!() }
    #[verifier::external_body]
    fn veq(self, b: Self) -> (r: bool) where Self::Item: EqItem { unimplemented!() }
    #[verifier::external_body]
    fn vany_eq(self, x: Self::Item) -> (r: bool) where Self::Item: EqItem { unimplemented!() }
}
impl<A: VIter, B: VIter<Item = A::Item>> VZip<A, B> {
    // a.zip(b).all(|(x, y)| x == y): looks at the common length only
    #[verifier::external_body]
    fn vall_eq(self) -> (r: bool)
        where A::Item: EqItem
        ensures r == forall|i: int| 0 <= i < self.a.todo().len() && i < self.b.todo().len()
            ==> <A::Item as EqItem>::eqi(#[trigger] self.a.todo()[i], self.b.todo()[i]),
    { unimplemented!() }
}
// what the elements' own comparison answers
#[verifier::external_body]
fn vpartial_cmp<T: PartialOrd>(a: &T, b: &T) -> (r: Option<Ordering>)
    ensures r == a.partial_cmp_spec(b),
{ a.partial_cmp(b) }
// for x in i
#[verifier::external_body]
fn vdrain<I: VIter>(i: I) -> (r: Vec<I::Item>)
    requires i.ok(),
    ensures r@ == i.todo(),
{ unimplemented!() }

// references to the entries
spec fn prefs<'a, K, V>(s: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { s.map_values(|e: (K, V)| (&e.0, &e.1)) }
proof fn lemma_prefs<'a, K: 'a, V: 'a>(s: Seq<(K, V)>)
    ensures
        prefs::<K, V>(s).len() == s.len(),
        forall|i: int| #![trigger prefs::<K, V>(s)[i]] #![trigger s[i]] 0 <= i < s.len() ==> *(prefs::<K, V>(s)[i].0) == s[i].0 && *(prefs::<K, V>(s)[i].1) == s[i].1,
        s.len() > 0 ==> prefs::<K, V>(s).skip(1) == prefs::<K, V>(s.skip(1)),
        s.len() > 0 ==> prefs::<K, V>(s)[0] == (&s[0].0, &s[0].1),
{
    if s.len() > 0 { assert(prefs::<K, V>(s).skip(1) =~= prefs::<K, V>(s.skip(1))); }
}

// ---------------------------------------------------------------------------
// Hashing: absorb(h, x) is the hasher's state once x was fed to it.
// ---------------------------------------------------------------------------
uninterp spec fn absorb<H, T>(h: H, x: T) -> H;
trait VHash: std::hash::Hash + Sized {
    fn vhash<H: std::hash::Hasher>(&self, state: &mut H)
        ensures *final(state) == absorb(*old(state), *self);
}
impl<T: std::hash::Hash> VHash for T {
    #[verifier::external_body]
    fn vhash<H: std::hash::Hasher>(&self, state: &mut H) { self.hash(state) }
}
spec fn hash_ents<H, K, V>(h: H, s: Seq<(K, V)>) -> H
    decreases s.len()
{
    if s.len() == 0 { h } else { absorb(absorb(hash_ents(h, s.drop_last()), s.last().0), s.last().1) }
}
spec fn hash_keys<H, K, V>(h: H, s: Seq<(K, V)>) -> H
    decreases s.len()
{
    if s.len() == 0 { h } else { absorb(hash_keys(h, s.drop_last()), s.last().0) }
}
// if equal parts hash alike, equal sequences do
proof fn lemma_hash_agrees<'a, H, K: PartialEq + 'a, V: PartialEq + 'a>(h: H, s: Seq<(K, V)>, t: Seq<(K, V)>)
    requires
        seq_eq(prefs::<K, V>(s), prefs::<K, V>(t)),
        forall|g: H, x: K, y: K| x.eq_spec(&y) ==> #[trigger] absorb(g, x) == #[trigger] absorb(g, y),
        forall|g: H, x: V, y: V| x.eq_spec(&y) ==> #[trigger] absorb(g, x) == #[trigger] absorb(g, y),
    ensures hash_ents(h, s) == hash_ents(h, t), hash_keys(h, s) == hash_keys(h, t),
    decreases s.len()
{
    lemma_prefs(s);
    lemma_prefs(t);
    if s.len() > 0 {
        let n = s.len() - 1;
        assert(<(&K, &V) as EqItem>::eqi(prefs::<K, V>(s)[n], prefs::<K, V>(t)[n]));
        let (ds, dt) = (s.drop_last(), t.drop_last());
        lemma_prefs(ds);
        lemma_prefs(dt);
        assert forall|i: int| 0 <= i < ds.len() implies <(&K, &V) as EqItem>::eqi(#[trigger] prefs::<K, V>(ds)[i], prefs::<K, V>(dt)[i]) by {
            assert(<(&K, &V) as EqItem>::eqi(prefs::<K, V>(s)[i], prefs::<K, V>(t)[i]));
            assert(prefs::<K, V>(ds)[i] == prefs::<K, V>(s)[i] && prefs::<K, V>(dt)[i] == prefs::<K, V>(t)[i]);
        }
        lemma_hash_agrees(h, ds, dt);
    }
}
