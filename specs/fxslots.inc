#raw
// ---------------------------------------------------------------------------
// Slot arrays.  `[MaybeUninit<T>; N]` is modelled by a sequence of N slots, a slot
// being Some (holds a value) or None (uninitialised, or moved out of).  A value read
// out of a slot, or copied to another one, is MOVED: its old slot becomes None.  A slot
// that holds a value must not be overwritten (the value would leak), a slot that holds
// none must not be read, borrowed or dropped.  So that `every element is dropped exactly
// once and never used afterwards` is the preconditions of these operations, with
// `every slot array that goes out of scope is empty beyond its owner's length`.
// Assumed contracts: each operation is the raw-pointer or MaybeUninit operation named.
// ---------------------------------------------------------------------------
struct VArr<T, const N: usize> { s: Ghost<Seq<Option<T>>> }

// slots b..b+n get what is in a..a+n, which is then gone
spec fn mv1<T>(s: Seq<Option<T>>, a: int, b: int, n: int) -> Seq<Option<T>> {
    Seq::new(s.len(), |j: int| if b <= j < b + n { s[j - b + a] } else if a <= j < a + n { None } else { s[j] })
}
spec fn mv_src<T>(s: Seq<Option<T>>, a: int, n: int) -> Seq<Option<T>> {
    Seq::new(s.len(), |j: int| if a <= j < a + n { None } else { s[j] })
}
spec fn mv_dst<T>(d: Seq<Option<T>>, s: Seq<Option<T>>, a: int, b: int, n: int) -> Seq<Option<T>> {
    Seq::new(d.len(), |j: int| if b <= j < b + n { s[j - b + a] } else { d[j] })
}
// the first n slots hold values, the others none
spec fn full<T>(s: Seq<Option<T>>, n: int) -> bool {
    &&& 0 <= n <= s.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] s[i] is Some
    &&& forall|i: int| n <= i < s.len() ==> #[trigger] s[i] is None
}
spec fn held<T>(s: Seq<Option<T>>, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| s[i]->0) }

impl<T, const N: usize> VArr<T, N> {
    // unsafe { MaybeUninit::uninit().assume_init() }, for an array of MaybeUninit
    #[verifier::external_body]
    fn uninit() -> (r: Self)
        ensures r.s@.len() == N, full(r.s@, 0),
    { unimplemented!() }
    // self[i].assume_init_read(), ptr.add(i).read().assume_init()
    #[verifier::external_body]
    fn vread(&mut self, i: usize) -> (r: T)
        requires i < old(self).s@.len(), old(self).s@[i as int] is Some,
        ensures r == old(self).s@[i as int]->0, final(self).s@ == old(self).s@.update(i as int, None),
    { unimplemented!() }
    // self[i].assume_init_drop()
    #[verifier::external_body]
    fn vdrop_at(&mut self, i: usize)
        requires i < old(self).s@.len(), old(self).s@[i as int] is Some,
        ensures final(self).s@ == old(self).s@.update(i as int, None),
    { unimplemented!() }
    // self[i].write(x), ptr.add(i).write(MaybeUninit::new(x))
    #[verifier::external_body]
    fn vwrite(&mut self, i: usize, x: T)
        requires i < old(self).s@.len(), old(self).s@[i as int] is None,
        ensures final(self).s@ == old(self).s@.update(i as int, Some(x)),
    { unimplemented!() }
    // self[i].assume_init_ref()
    #[verifier::external_body]
    fn vref(&self, i: usize) -> (r: &T)
        requires i < self.s@.len(), self.s@[i as int] is Some,
        ensures *r == self.s@[i as int]->0,
    { unimplemented!() }
    // copy(ptr.add(a), ptr.add(b), n)
    #[verifier::external_body]
    fn vmove(&mut self, a: usize, b: usize, n: usize)
        requires
            a + n <= old(self).s@.len(), b + n <= old(self).s@.len(),
            forall|j: int| b <= j < b + n && !(a <= j < a + n) ==> #[trigger] old(self).s@[j] is None,
        ensures final(self).s@ == mv1(old(self).s@, a as int, b as int, n as int),
    { unimplemented!() }
    // copy(src.add(a), self.add(b), n)
    #[verifier::external_body]
    fn vmove_from(&mut self, src: &mut Self, a: usize, b: usize, n: usize)
        requires
            a + n <= old(src).s@.len(), b + n <= old(self).s@.len(),
            forall|j: int| b <= j < b + n ==> #[trigger] old(self).s@[j] is None,
        ensures
            final(self).s@ == mv_dst(old(self).s@, old(src).s@, a as int, b as int, n as int),
            final(src).s@ == mv_src(old(src).s@, a as int, n as int),
    { unimplemented!() }
    // self[0].assume_init_mut(), for the address
    #[verifier::external_body]
    fn vsome0(&self)
        requires 0 < self.s@.len(), self.s@[0] is Some,
    { unimplemented!() }
    // from_raw_parts(self[0].assume_init_ref(), n)
    #[verifier::external_body]
    fn vsl(&self, n: usize) -> (r: &[T])
        requires
            0 < self.s@.len(), self.s@[0] is Some, n <= self.s@.len(),
            forall|i: int| 0 <= i < n ==> #[trigger] self.s@[i] is Some,
        ensures r@ == held(self.s@, n as int),
    { unimplemented!() }
    // from_raw_parts_mut(self[0].assume_init_mut(), n)
    #[verifier::external_body]
    fn vsl_mut(&mut self, n: usize) -> (r: &mut [T])
        requires
            0 < old(self).s@.len(), old(self).s@[0] is Some, n <= old(self).s@.len(),
            forall|i: int| 0 <= i < n ==> #[trigger] old(self).s@[i] is Some,
        ensures
            r@ == held(old(self).s@, n as int), final(r)@.len() == n,
            final(self).s@ == Seq::new(old(self).s@.len(), |i: int| if i < n { Some(final(r)@[i]) } else { old(self).s@[i] }),
    { unimplemented!() }
}
impl<const N: usize> VArr<(), N> {
    // values of type () take up no memory: any number of slots holds one
    #[verifier::external_body]
    fn vunits(&mut self, n: u32)
        requires n <= old(self).s@.len(),
        ensures final(self).s@ == Seq::new(old(self).s@.len(), |j: int| if j < n { Some(()) } else { None::<()> }),
    { unimplemented!() }
}
// slices
trait VSl<E> {
    fn vget(&self, i: usize) -> (r: Option<&E>);
    fn vget_mut(&mut self, i: usize) -> (r: Option<&mut E>);

}
impl<E> VSl<E> for [E] {
    // self.get(i)
    #[verifier::external_body]
    fn vget(&self, i: usize) -> (r: Option<&E>)
        ensures match r { Some(x) => i < self@.len() && *x == self@[i as int], None => i >= self@.len() }
    { self.get(i) }
    // self.get_mut(i)
    #[verifier::external_body]
    fn vget_mut(&mut self, i: usize) -> (r: Option<&mut E>)
        ensures match r {
            Some(x) => i < old(self)@.len() && *x == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(x)),
            None => i >= old(self)@.len() && final(self)@ == old(self)@,
        }
    { self.get_mut(i) }
}
// &mut s[i]
#[verifier::external_body]
fn vat_mut<E>(s: &mut [E], i: usize) -> (r: &mut E)
    requires i < old(s)@.len(),
    ensures *r == old(s)@[i as int], final(s)@ == old(s)@.update(i as int, *final(r)),
{ &mut s[i] }
// an arbitrary boolean, for `size_of::<K>() <= size_of::<usize>()`: both outcomes are considered
#[verifier::external_body]
fn vany() -> bool { unimplemented!() }
// ks.binary_search_by_key(&q, |k| k.borrow())
#[verifier::external_body]
fn vbinary_search<K: Ord, Q: Ord>(ks: &[K], q: &Q) -> (r: Result<usize, usize>)
    requires
        forall|i: int, j: int| 0 <= i < j < ks@.len() ==>
            (!(qcut::<K, Q>(*q)(#[trigger] ks@[i]) is Greater) ==> qcut::<K, Q>(*q)(#[trigger] ks@[j]) is Less),
    ensures
        match r {
            Ok(i) => i < ks@.len() && qcut::<K, Q>(*q)(ks@[i as int]) is Equal,
            Err(i) => i <= ks@.len() && (0 < i ==> qcut::<K, Q>(*q)(ks@[i - 1]) is Greater)
                && (i < ks@.len() ==> qcut::<K, Q>(*q)(ks@[i as int]) is Less),
        },
{ unimplemented!() }
#source src/btree/core.rs
#subst \bArc::make_mut\( => arc_make_mut(
#subst \bArc::try_unwrap\( => arc_try_unwrap(
#subst \b(?:std::)?(?:mem::)?replace\( => mem_replace(
#subst \.clone\(\) => .vclone()
#subst \.borrow\(\) => .vborrow()
#subst \bassert!\( => vassert!(
#subst \bassert_eq!\( => vassert_eq!(
#subst \[MaybeUninit<(\w+)>;\s*(\w+)\] => VArr<\1,\2>
#subst \bMaybeUninit::uninit\(\)\.assume_init\(\) => VArr::uninit()
#subst \b(\w*kids)\.len\s*(\+?=)\s*([^;=]+); => \1.len\2\3;\1.vals.vunits(\1.len);
#subst \[([^\[\]]+)\]\s*\.assume_init_drop\(\) => .vdrop_at(\1)
#subst \[([^\[\]]+)\]\s*\.assume_init_read\(\) => .vread(\1)
#subst \[([^\[\]]+)\]\s*\.assume_init_ref\(\) => .vref(\1)
#subst \[([^\[\]]+)\]\s*\.write\( => .vwrite(\1,
#subst \.add\(([^()]*)\)\s*\.read\(\)\s*\.assume_init\(\) => .vread(\1)
#raw
