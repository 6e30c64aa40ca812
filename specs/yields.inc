#raw
// ---------------------------------------------------------------------------
// Bulk operations: a source of entries is the sequence it yields.
// ---------------------------------------------------------------------------
// what iterating t to the end yields
pub uninterp spec fn yields<T: IntoIterator>(t: T) -> Seq<T::Item>;

// Assumed: the iterator ends, and its elements fit in memory.
#[verifier::external_body]
pub fn vec_of<T: IntoIterator>(t: T) -> (r: Vec<T::Item>)
    ensures r@ == yields(t)
{ t.into_iter().collect() }

// x.into_iter(), as the vector of what it yields
pub trait VIntoIter: IntoIterator + Sized {
    fn vinto_iter(self) -> (r: Vec<Self::Item>)
        ensures r@ == yields(self);
}
impl<T: IntoIterator> VIntoIter for T {
    fn vinto_iter(self) -> (r: Vec<Self::Item>) { vec_of(self) }
}

// a vector yields its elements, an array too
pub broadcast axiom fn axiom_yields_vec<E>(v: Vec<E>)
    ensures #[trigger] yields::<Vec<E>>(v) == v@, v@.len() <= usize::MAX;
#[verifier::external_body]
pub fn vec_arr<E, const M: usize>(v: [E; M]) -> (r: Vec<E>)
    ensures r@ == v@
{ Vec::from(v) }
