#raw
// What a value serializes to.  Assumed: a function of the value.
#[verifier::external_body]
pub struct Tok { x: () }
pub uninterp spec fn tok<T>(x: T) -> Tok;
pub open spec fn toks<K, V>(s: Seq<(K, V)>) -> Seq<(Tok, Tok)> { s.map_values(|e: (K, V)| (tok(e.0), tok(e.1))) }
// Where a map is serialized to.  Assumed: a serializer takes what it is given, in order, or fails.
pub trait VSerMap: Sized {
    type Ok;
    type Error;
    spec fn put(&self) -> Seq<(Tok, Tok)>;
    spec fn claim(&self) -> Option<usize>;
    // the entries that make up an outcome, and the length claimed for it
    spec fn made(o: Self::Ok) -> Seq<(Tok, Tok)>;
    spec fn said(o: Self::Ok) -> Option<usize>;
    fn serialize_entry<K, V>(&mut self, k: &K, v: &V) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).put() == old(self).put().push((tok(*k), tok(*v))) && final(self).claim() == old(self).claim();
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok ==> Self::said(r->Ok_0) == self.claim() && Self::made(r->Ok_0) == self.put();
}
pub trait VSerializer: Sized {
    type Ok;
    type Error;
    type Map: VSerMap<Ok = Self::Ok, Error = Self::Error>;
    fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::Map, Self::Error>)
        ensures r is Ok ==> (r->Ok_0).put() == Seq::<(Tok, Tok)>::empty() && (r->Ok_0).claim() == len;
}
pub proof fn lemma_toks<K, V>(s: Seq<(K, V)>)
    ensures
        toks(s).len() == s.len(), toks(Seq::<(K, V)>::empty()) == Seq::<(Tok, Tok)>::empty(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] toks(s.take(i + 1)) == toks(s.take(i)).push((tok(s[i].0), tok(s[i].1))),
        toks(s.take(s.len() as int)) == toks(s), toks(s.take(0)) == Seq::<(Tok, Tok)>::empty(),
{
    assert(toks(Seq::<(K, V)>::empty()) =~= Seq::<(Tok, Tok)>::empty());
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::<(K, V)>::empty());
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] toks(s.take(i + 1)) == toks(s.take(i)).push((tok(s[i].0), tok(s[i].1))) by {
        assert(toks(s.take(i + 1)) =~= toks(s.take(i)).push((tok(s[i].0), tok(s[i].1))));
    }
}
#prop C13
