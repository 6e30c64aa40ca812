#include header.inc
#include yields.inc
#source src/stack.rs
#subst \bRc::make_mut\( => rc_make_mut(
#subst \bRc::try_unwrap\( => rc_try_unwrap(
#subst \bRc::get_mut\b\( => rc_get_mut(
#subst \.clone\(\) => .vclone()
#subst \.unwrap\(\) => .vunwrap()
#subst \bpanic!\( => vpanic!(
#subst \bself\.len\s([-+])=\s([^;]+); => self.len=vany(self.len,\2);
#subst \b(?:std::)?mem::take\( => mem_take(
#raw
// ---------------------------------------------------------------------------
// Where a list of nodes is overwritten, discarded or goes out of scope it must be
// short: dropping a node drops the rest of its list recursively, unless the node
// is shared.  The functions are extracted with their assignments turned into vset
// and discarded `take()`s into vdrop; neither they nor loops recur: Verus
// refuses a recursive function without a termination measure, and none is given.
// ---------------------------------------------------------------------------
pub uninterp spec fn shared<T>(x: T) -> bool;

trait VDrop {
    // dropping the value recurs at most once
    spec fn light(&self) -> bool;
}
fn vset<X: VDrop>(v: X, x: &mut X)
    requires old(x).light(),
    ensures *final(x) == v,
{ *x = v; }
fn vdrop<X: VDrop>(v: X)
    requires v.light(),
{ }
// x goes out of scope
fn vend<X: VDrop>(x: &X)
    requires x.light(),
{ }
impl VDrop for usize { spec fn light(&self) -> bool { true } }
impl VDrop for bool { spec fn light(&self) -> bool { true } }
impl<'a, X> VDrop for &'a X { spec fn light(&self) -> bool { true } }
impl<'a, X> VDrop for Option<&'a mut X> { spec fn light(&self) -> bool { true } }

#[verifier::external_body]
fn mem_take<T: Default>(x: &mut T) -> (r: T)
    ensures r == *old(x)
{ std::mem::take(x) }
// a reference that cannot be unwrapped is shared: dropping it frees nothing
#[verifier::external_body]
pub fn rc_try_unwrap<T>(x: Rc<T>) -> (r: Result<T, Rc<T>>)
    ensures match r { Ok(t) => t == *x, Err(a) => a == x && shared(a) }
{ Rc::try_unwrap(x) }
#[verifier::external_body]
pub fn rc_get_mut<T>(x: &mut Rc<T>) -> (r: Option<&mut T>)
    ensures match r {
        Some(t) => *t == **old(x) && *final(t) == **final(x),
        None => *final(x) == *old(x) && shared(*old(x)),
    }
{ Rc::get_mut(x) }
// o.and_then(Rc::get_mut)
fn vget_muts<T>(o: Option<&mut Rc<T>>) -> (r: Option<&mut T>)
    ensures match r {
        Some(t) => o is Some && *t == **(o->0) && *final(t) == **final(o->0),
        None => o is Some ==> *final(o->0) == *(o->0) && shared(*(o->0)),
    }
{ match o { Some(x) => rc_get_mut(x), None => None } }
// a panic ends the execution: nothing to show
#[verifier::external_body]
fn vdiverge() -> !
    ensures false
{ panic!() }
macro_rules! vpanic { ($($e:tt)*) => { vdiverge() } }
// lengths do not matter here
#[verifier::external_body]
fn vany(a: usize, b: usize) -> usize { unimplemented!() }
trait VUnwrap<T>: Sized {
    spec fn got(self) -> T;
    spec fn is_ok(self) -> bool;
    fn vunwrap(self) -> (r: T)
        ensures self.is_ok(), r == self.got();
}
impl<T> VUnwrap<T> for Option<T> {
    spec fn got(self) -> T { self->0 }
    spec fn is_ok(self) -> bool { self is Some }
    #[verifier::external_body]
    fn vunwrap(self) -> (r: T) { self.unwrap() }
}
#[verifier::external_body]
fn vpartial_cmp<T: PartialOrd>(a: &T, b: &T) -> (r: Option<Ordering>) { a.partial_cmp(b) }
#item type OptList
#item struct List
#item struct Stack
#item struct Iter
#item struct IterMut
#item struct IntoIter
#raw
spec fn slight<T>(o: OptList<T>) -> bool { o is None || shared(o->0) }
impl<T> VDrop for Option<Rc<List<T>>> {
    spec fn light(&self) -> bool { slight(*self) || slight(self->0.rest) }
}
impl<T> VDrop for Rc<List<T>> {
    spec fn light(&self) -> bool { shared(*self) || slight(self.rest) }
}
// its Drop is under contract below
impl<T> VDrop for Stack<T> { spec fn light(&self) -> bool { true } }
impl<T> VDrop for IntoIter<T> { spec fn light(&self) -> bool { true } }
spec fn cnt<T>(o: OptList<T>) -> nat
    decreases o
{
    match o { None => 0, Some(rc) => 1 + cnt(rc.rest) }
}
#prop C18
#fn Clone@List::clone -> r +keeptrait
    ensures r == *self,
#fn Clone@Stack::clone -> r +keeptrait
    ensures r == *self,
#fn Stack::new -> r +drops
    ensures r.elems is None,
#fn Stack::push +drops
#fn Stack::top -> r
@closure 0 (n: &Rc<List<T>>) -> (r: &T)
#fn Stack::top_mut -> r +drops
@closure 0 (rc: &mut Rc<List<T>>) -> (r: &mut T)
#fn Stack::pop -> r +drops
@sub ?(\bErr\((\w+)\)\s=>\s\{) => \1 assert(\2.light());
#fn Stack::len -> r
    ensures r == self.len,
#fn Stack::is_empty -> r
#fn Stack::clear +drops +noiso +anyloops +optloops
    ensures final(self).elems.light(),
@sub ?([\w.]+)\.as_mut\(\)\.and_then\(Rc::get_mut\) => vget_muts(\1.as_mut())
@sub ?(let\s+mut\s+(\w+)(?::\s*OptList<T>)?\s*=\s*self\.elems\.take\(\);\s*while[^{]*)\{ => \1 invariant self.elems is None, decreases cnt(*&\2) {
#fn Drop@Stack::drop +drops
    // what is dropped after it, field by field
    ensures final(self).elems.light(),
#fn Stack::remove -> r +drops
@loop 0
    decreases at
@sub ?(\bErr\((\w+)\)\s=>\s\{) => \1 assert(\2.light());
#fn Stack::split_off -> r +drops
@loop 0
    decreases at
#fn Iterator@Iter::next -> r +drops
    ensures
        r is Some ==> cnt(*final(self).next) < cnt(*old(self).next),
        r is None ==> *final(self).next is None,
#fn Stack::iter -> r
#fn Iterator@IterMut::next -> r +drops
@sub ?([\w.]+\(\))\.map\(\|(\w+)\| \{([\s\S]*)\}\) => match \1 { Some(\2) => Some({\3}), None => None }
#fn Stack::iter_mut -> r
#fn Iterator@IntoIter::next -> r +drops
#fn IntoIterator@Stack::into_iter -> r +drops
#fn Default@Stack::default -> r
#fn Extend@Stack::extend +drops
@sub \bin iter\b => in it__: vec_of(iter)
@loop 0
    invariant true,
#fn FromIterator@Stack::from_iter -> r +drops
#fn From@Stack::from -> r +drops
@sub (\w+)\.into_iter\(\) => \1
#fn PartialOrd@Stack::partial_cmp -> r +drops
@sub ?\ba\.partial_cmp\(b\) => vpartial_cmp(a, b)
@loop 0
    decreases cnt(*xs.next),
#include footer.inc
