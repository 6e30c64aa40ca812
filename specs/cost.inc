#raw
#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_macros, private_interfaces, unreachable_code, unused_assignments)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::cmp::Ordering::*;
use std::sync::Arc;
use std::rc::Rc;
use std::marker::PhantomData;

verus! {

// ---------------------------------------------------------------------------
// A ghost meter, passed through every function: what has been cloned so far.
//   copies: nodes that were cloned if they were shared, that is the number of nodes
//           cloned when every node is shared
//   elems:  keys, values or nodes cloned whether or not anything is shared
//   arcs:   references to nodes duplicated
// If `elems` and `arcs` do not grow, an operation on a tree that shares no node clones
// nothing.  Arithmetic, comparison results and cached heights are left arbitrary here:
// the bounds hold whatever they are.  Panic freedom is not an obligation of this file
// (it is proved with the functional contracts).
// ---------------------------------------------------------------------------
pub tracked struct Cost { pub ghost copies: nat, pub ghost elems: nat, pub ghost arcs: nat }

// nothing was cloned that sharing does not require
pub open spec fn quiet(a: Cost, b: Cost) -> bool { a.elems == b.elems && a.arcs == b.arcs }
// ... and at most n nodes were cloned because they were shared
pub open spec fn within(a: Cost, b: Cost, n: nat) -> bool { quiet(a, b) && b.copies <= a.copies + n }
pub open spec fn same(a: Cost, b: Cost) -> bool { within(a, b, 0) }

pub uninterp spec fn shared<T>(x: T) -> bool;

pub trait VClone: Sized {
    spec fn ce() -> nat;
    spec fn ca() -> nat;
    fn vclone(&self, Tracked(cc): Tracked<&mut Cost>) -> (r: Self)
        ensures
            final(cc).copies == old(cc).copies,
            final(cc).elems == old(cc).elems + Self::ce(),
            final(cc).arcs == old(cc).arcs + Self::ca();
}
impl VClone for usize {
    open spec fn ce() -> nat { 0 }
    open spec fn ca() -> nat { 0 }
    #[verifier::external_body]
    fn vclone(&self, Tracked(cc): Tracked<&mut Cost>) -> (r: Self) { *self }
}
impl<T> VClone for Arc<T> {
    open spec fn ce() -> nat { 0 }
    open spec fn ca() -> nat { 1 }
    #[verifier::external_body]
    fn vclone(&self, Tracked(cc): Tracked<&mut Cost>) -> (r: Self) { unimplemented!() }
}
impl<T> VClone for Rc<T> {
    open spec fn ce() -> nat { 0 }
    open spec fn ca() -> nat { 1 }
    #[verifier::external_body]
    fn vclone(&self, Tracked(cc): Tracked<&mut Cost>) -> (r: Self) { unimplemented!() }
}
impl<T: VClone> VClone for Option<T> {
    open spec fn ce() -> nat { T::ce() }
    open spec fn ca() -> nat { T::ca() }
    #[verifier::external_body]
    fn vclone(&self, Tracked(cc): Tracked<&mut Cost>) -> (r: Self) { unimplemented!() }
}
impl<A: VClone, B: VClone> VClone for (A, B) {
    open spec fn ce() -> nat { A::ce() + B::ce() }
    open spec fn ca() -> nat { A::ca() + B::ca() }
    #[verifier::external_body]
    fn vclone(&self, Tracked(cc): Tracked<&mut Cost>) -> (r: Self) { unimplemented!() }
}
impl VClone for () {
    open spec fn ce() -> nat { 0 }
    open spec fn ca() -> nat { 0 }
    #[verifier::external_body]
    fn vclone(&self, Tracked(cc): Tracked<&mut Cost>) -> (r: Self) { }
}
impl<T: VClone> VClone for Vec<T> {
    open spec fn ce() -> nat { 1 }
    open spec fn ca() -> nat { 1 }
    #[verifier::external_body]
    fn vclone(&self, Tracked(cc): Tracked<&mut Cost>) -> (r: Self) { unimplemented!() }
}

#[verifier::external_body]
pub fn arc_make_mut<'a, T>(x: &'a mut Arc<T>, Tracked(cc): Tracked<&mut Cost>) -> (r: &'a mut T)
    ensures *r == **old(x), *final(r) == **final(x),
        final(cc).copies == old(cc).copies + 1, quiet(*old(cc), *final(cc)),
{ unimplemented!() }

#[verifier::external_body]
pub fn rc_make_mut<'a, T>(x: &'a mut Rc<T>, Tracked(cc): Tracked<&mut Cost>) -> (r: &'a mut T)
    ensures *r == **old(x), *final(r) == **final(x),
        final(cc).copies == old(cc).copies + 1, quiet(*old(cc), *final(cc)),
{ unimplemented!() }

#[verifier::external_body]
pub fn arc_get_mut<T>(x: &mut Arc<T>) -> (r: Option<&mut T>)
    ensures match r {
        Some(t) => *t == **old(x) && *final(t) == **final(x),
        None => *final(x) == *old(x) && shared(*old(x)),
    }
{ Arc::get_mut(x) }

// a reference that cannot be unwrapped is shared
#[verifier::external_body]
pub fn arc_try_unwrap<T>(x: Arc<T>) -> (r: Result<T, Arc<T>>)
    ensures match r { Ok(t) => t == *x, Err(a) => a == x && shared(a) }
{ Arc::try_unwrap(x) }
#[verifier::external_body]
pub fn rc_try_unwrap<T>(x: Rc<T>) -> (r: Result<T, Rc<T>>)
    ensures match r { Ok(t) => t == *x, Err(a) => a == x && shared(a) }
{ Rc::try_unwrap(x) }

// (*rc).clone(): a copy of a node
#[verifier::external_body]
pub fn vcopy<T>(x: &Arc<T>, Tracked(cc): Tracked<&mut Cost>) -> (r: T)
    ensures r == **x, final(cc).copies == old(cc).copies + 1, final(cc).arcs == old(cc).arcs,
        final(cc).elems == old(cc).elems + if shared(*x) { 0nat } else { 1nat },
{ unimplemented!() }

#[verifier::external_body]
pub fn mem_replace<T>(x: &mut T, v: T) -> (r: T)
    ensures r == *old(x), *final(x) == v
{ std::mem::replace(x, v) }

pub trait VBorrow<Q>: Sized {
    fn vborrow(&self) -> (r: &Q);
}
impl<K: Borrow<Q>, Q> VBorrow<Q> for K {
    #[verifier::external_body]
    fn vborrow(&self) -> (r: &Q) { self.borrow() }
}

// a panic ends the execution: nothing to show
#[verifier::external_body]
fn vdiverge() -> !
    ensures false
{ panic!() }
macro_rules! vpanic { ($($e:tt)*) => { vdiverge() } }
macro_rules! vassume { ($($e:tt)*) => { } }

pub trait VUnwrap<T>: Sized {
    spec fn got(self) -> T;
    spec fn is_ok(self) -> bool;
    fn vunwrap(self) -> (r: T)
        ensures self.is_ok(), r == self.got();
}
impl<T> VUnwrap<T> for Option<T> {
    open spec fn got(self) -> T { self->0 }
    open spec fn is_ok(self) -> bool { self is Some }
    #[verifier::external_body]
    fn vunwrap(self) -> (r: T) { self.unwrap() }
}

// arithmetic: any result
#[verifier::external_body]
fn vany<T>(x: T, y: T) -> (r: T) { x }

// vectors: positions out of range panic (so: not an obligation here)
pub trait VSlice<E>: Sized {
    fn vget_mut(&mut self, i: usize) -> (r: Option<&mut E>);
    fn vlast_mut(&mut self) -> (r: Option<&mut E>);
    fn vat(&self, i: usize) -> (r: &E);
    fn vat_mut(&mut self, i: usize) -> (r: &mut E);
    fn vremove(&mut self, i: usize) -> (r: E);
    fn vinsert(&mut self, i: usize, x: E);
    fn vsplit_off(&mut self, i: usize) -> (r: Self);
    fn vextend(&mut self, w: Self);
}
impl<E> VSlice<E> for Vec<E> {
    #[verifier::external_body]
    fn vget_mut(&mut self, i: usize) -> (r: Option<&mut E>)
        ensures match r {
            Some(x) => i < old(self)@.len() && *x == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(x)),
            None => *final(self) == *old(self),
        }
    { self.get_mut(i) }

    #[verifier::external_body]
    fn vlast_mut(&mut self) -> (r: Option<&mut E>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && *x == old(self)@.last()
                && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(x)),
            None => *final(self) == *old(self),
        }
    { self.last_mut() }

    #[verifier::external_body]
    fn vat(&self, i: usize) -> (r: &E)
        ensures i < self@.len(), *r == self@[i as int]
    { &self[i] }

    #[verifier::external_body]
    fn vat_mut(&mut self, i: usize) -> (r: &mut E)
        ensures i < old(self)@.len(), *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r))
    { &mut self[i] }

    #[verifier::external_body]
    fn vremove(&mut self, i: usize) -> (r: E) { self.remove(i) }
    #[verifier::external_body]
    fn vinsert(&mut self, i: usize, x: E) { self.insert(i, x) }
    #[verifier::external_body]
    fn vsplit_off(&mut self, i: usize) -> (r: Self) { self.split_off(i) }
    #[verifier::external_body]
    fn vextend(&mut self, w: Self) { self.extend(w) }
}
#[verifier::external_body]
fn vsz() -> (r: usize) { 0 }
