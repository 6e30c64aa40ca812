#raw
// ---------------------------------------------------------------------------
// std's slice and vector iterators: the sequence still to be yielded.
// Assumed contracts.
// ---------------------------------------------------------------------------
trait VDe: Sized {
    type Item;
    spec fn todo(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures
            match r {
                Some(x) => old(self).todo().len() > 0 && x == old(self).todo()[0] && final(self).todo() == old(self).todo().skip(1),
                None => old(self).todo().len() == 0 && final(self).todo() == old(self).todo(),
            };
    fn next_back(&mut self) -> (r: Option<Self::Item>)
        ensures
            match r {
                Some(x) => old(self).todo().len() > 0 && x == old(self).todo().last() && final(self).todo() == old(self).todo().drop_last(),
                None => old(self).todo().len() == 0 && final(self).todo() == old(self).todo(),
            };
    fn len(&self) -> (r: usize)
        ensures r == self.todo().len();
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VSliceIter<'a, T> { i: std::slice::Iter<'a, T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VSliceIterMut<'a, T> { i: std::slice::IterMut<'a, T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VVecIter<T> { i: std::vec::IntoIter<T> }
impl<'a, T> VSliceIter<'a, T> { uninterp spec fn seq(&self) -> Seq<&'a T>; }
impl<'a, T> VSliceIterMut<'a, T> { uninterp spec fn seq(&self) -> Seq<&'a mut T>; }
impl<T> VVecIter<T> { uninterp spec fn seq(&self) -> Seq<T>; }
impl<'a, T> VDe for VSliceIter<'a, T> {
    type Item = &'a T;
    spec fn todo(&self) -> Seq<&'a T> { self.seq() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a T>) { self.i.next() }
    #[verifier::external_body]
    fn next_back(&mut self) -> (r: Option<&'a T>) { self.i.next_back() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { self.i.len() }
}
impl<'a, T> VDe for VSliceIterMut<'a, T> {
    type Item = &'a mut T;
    spec fn todo(&self) -> Seq<&'a mut T> { self.seq() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a mut T>) { self.i.next() }
    #[verifier::external_body]
    fn next_back(&mut self) -> (r: Option<&'a mut T>) { self.i.next_back() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { self.i.len() }
}
impl<T> VDe for VVecIter<T> {
    type Item = T;
    spec fn todo(&self) -> Seq<T> { self.seq() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { self.i.next() }
    #[verifier::external_body]
    fn next_back(&mut self) -> (r: Option<T>) { self.i.next_back() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { self.i.len() }
}
trait VVec<T> {
    fn viter<'a>(&'a self) -> (r: VSliceIter<'a, T>);
    fn viter_mut<'a>(&'a mut self) -> (r: VSliceIterMut<'a, T>);
    fn vinto(self) -> (r: VVecIter<T>);
}
impl<T> VVec<T> for Vec<T> {
    // self.iter()
    #[verifier::external_body]
    fn viter<'a>(&'a self) -> (r: VSliceIter<'a, T>)
        ensures r.todo().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.todo()[i]) == self@[i],
    { VSliceIter { i: self.iter() } }
    // self.iter_mut()
    #[verifier::external_body]
    fn viter_mut<'a>(&'a mut self) -> (r: VSliceIterMut<'a, T>)
        ensures
            r.todo().len() == old(self)@.len(), final(self)@.len() == old(self)@.len(),
            forall|i: int| 0 <= i < old(self)@.len() ==> *(#[trigger] r.todo()[i]) == old(self)@[i] && *final(r.todo()[i]) == final(self)@[i],
    { VSliceIterMut { i: self.iter_mut() } }
    // self.into_iter()
    #[verifier::external_body]
    fn vinto(self) -> (r: VVecIter<T>)
        ensures r.todo() == self@,
    { VVecIter { i: self.into_iter() } }
}
// x[a..b].iter()
#[verifier::external_body]
fn vsub<'a, T>(x: &'a Vec<T>, a: usize, b: usize) -> (r: VSliceIter<'a, T>)
    requires a <= b <= x@.len(),
    ensures r.todo().len() == b - a, forall|i: int| 0 <= i < b - a ==> *(#[trigger] r.todo()[i]) == x@[a + i],
{ VSliceIter { i: x[a..b].iter() } }
// x[a..b].iter_mut()
#[verifier::external_body]
fn vsub_mut<'a, T>(x: &'a mut Vec<T>, a: usize, b: usize) -> (r: VSliceIterMut<'a, T>)
    requires a <= b <= old(x)@.len(),
    ensures
        r.todo().len() == b - a, final(x)@.len() == old(x)@.len(),
        forall|i: int| 0 <= i < b - a ==> *(#[trigger] r.todo()[i]) == old(x)@[a + i] && *final(r.todo()[i]) == final(x)@[a + i],
        forall|i: int| 0 <= i < old(x)@.len() && !(a <= i < b) ==> #[trigger] final(x)@[i] == old(x)@[i],
{ VSliceIterMut { i: x[a..b].iter_mut() } }
// x.get(a..b).unwrap_or_default().iter()
#[verifier::external_body]
fn vsub_or<'a, T>(x: &'a Vec<T>, a: usize, b: usize) -> (r: VSliceIter<'a, T>)
    ensures
        a <= b <= x@.len() ==> r.todo().len() == b - a && forall|i: int| 0 <= i < b - a ==> *(#[trigger] r.todo()[i]) == x@[a + i],
        !(a <= b <= x@.len()) ==> r.todo().len() == 0,
{ VSliceIter { i: x.get(a..b).unwrap_or_default().iter() } }
// x.get_mut(a..b).unwrap_or_default().iter_mut()
#[verifier::external_body]
fn vsub_or_mut<'a, T>(x: &'a mut Vec<T>, a: usize, b: usize) -> (r: VSliceIterMut<'a, T>)
    ensures
        a <= b <= old(x)@.len() ==> r.todo().len() == b - a && final(x)@.len() == old(x)@.len()
            && (forall|i: int| 0 <= i < b - a ==> *(#[trigger] r.todo()[i]) == old(x)@[a + i] && *final(r.todo()[i]) == final(x)@[a + i])
            && (forall|i: int| 0 <= i < old(x)@.len() && !(a <= i < b) ==> #[trigger] final(x)@[i] == old(x)@[i]),
        !(a <= b <= old(x)@.len()) ==> r.todo().len() == 0 && final(x)@ == old(x)@,
{ VSliceIterMut { i: x.get_mut(a..b).unwrap_or_default().iter_mut() } }
trait VDeque<E> {
    fn vfront_mut(&mut self) -> (r: Option<&mut E>);
    fn vback_mut(&mut self) -> (r: Option<&mut E>);
}
impl<E> VDeque<E> for VecDeque<E> {
    #[verifier::external_body]
    fn vfront_mut(&mut self) -> (r: Option<&mut E>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && *x == old(self)@[0] && final(self)@ == old(self)@.update(0, *final(x)),
            None => old(self)@.len() == 0 && *final(self) == *old(self),
        }
    { self.front_mut() }
    #[verifier::external_body]
    fn vback_mut(&mut self) -> (r: Option<&mut E>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && *x == old(self)@.last() && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(x)),
            None => old(self)@.len() == 0 && *final(self) == *old(self),
        }
    { self.back_mut() }
}
// VecDeque::from([x])
#[verifier::external_body]
fn vdeque_of<E>(x: E) -> (r: VecDeque<E>)
    ensures r@ == seq![x],
{ VecDeque::from([x]) }

// a function pointer: what the function it was made of requires and ensures
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(R)]
pub struct VFn<A, R> { f: fn(A) -> R }
impl<A, R> VFn<A, R> {
    pub uninterp spec fn req(self, a: A) -> bool;
    pub uninterp spec fn ens(self, a: A, r: R) -> bool;
    #[verifier::external_body]
    pub fn call(&self, a: A) -> (r: R)
        requires self.req(a),
        ensures self.ens(a, r),
    { (self.f)(a) }
    #[verifier::external_body]
    pub fn of<F: Fn(A) -> R>(f: F) -> (r: Self)
        ensures
            forall|a: A| f.requires((a,)) ==> #[trigger] r.req(a),
            forall|a: A, x: R| #[trigger] r.ens(a, x) ==> f.ensures((a,), x),
    { unimplemented!() }
}
