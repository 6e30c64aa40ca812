#raw
#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_macros, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::cmp::Ordering::*;
use std::collections::VecDeque;
use std::sync::Arc;
use std::rc::Rc;
use std::ops::{Bound, RangeBounds};
use std::mem::replace;
use std::marker::PhantomData;

verus! {

// ---------------------------------------------------------------------------
// Shims: std functions Verus has no specification for.  Assumed contracts.
// ---------------------------------------------------------------------------
pub trait VClone: Sized {
    fn vclone(&self) -> (r: Self)
        ensures r == *self;
}

impl<T: Clone> VClone for T {
    #[verifier::external_body]
    fn vclone(&self) -> (r: T) { self.clone() }
}

// assert!(c) panics unless c: not panicking is an obligation
fn vassert_fn(b: bool) requires b, {}
macro_rules! vassert { ($e:expr $(, $m:expr)* $(,)?) => { vassert_fn($e) } }
macro_rules! vassert_eq { ($a:expr, $b:expr $(,)?) => { vassert_fn($a == $b) } }

// Cloning is assumed to give an equal value (keys and values are "lawful" Clone).
#[verifier::external_body]
pub fn arc_make_mut<T: Clone>(x: &mut Arc<T>) -> (r: &mut T)
    ensures *r == **old(x), *final(r) == **final(x)
{ Arc::make_mut(x) }

#[verifier::external_body]
pub fn rc_make_mut<T: Clone>(x: &mut Rc<T>) -> (r: &mut T)
    ensures *r == **old(x), *final(r) == **final(x)
{ Rc::make_mut(x) }

// Whether a node is shared is not known: both outcomes are considered.
#[verifier::external_body]
pub fn arc_get_mut<T>(x: &mut Arc<T>) -> (r: Option<&mut T>)
    ensures match r {
        Some(t) => *t == **old(x) && *final(t) == **final(x),
        None => *final(x) == *old(x),
    }
{ Arc::get_mut(x) }

// Assumed: only called on a uniquely owned node (see DESIGN.md, "uniqueness").
#[verifier::external_body]
pub fn arc_get_mut_unique<T>(x: &mut Arc<T>) -> (r: Option<&mut T>)
    ensures r is Some, *(r->0) == **old(x), *final(r->0) == **final(x)
{ Arc::get_mut(x) }

#[verifier::external_body]
pub fn arc_try_unwrap<T>(x: Arc<T>) -> (r: Result<T, Arc<T>>)
    ensures match r { Ok(t) => t == *x, Err(a) => a == x }
{ Arc::try_unwrap(x) }

// Assumed: only called on a uniquely owned node: where arc_make_mut was called on
// the same variable just before, or where DESIGN.md ("uniqueness") says so.
#[verifier::external_body]
pub fn arc_try_unwrap_unique<T>(x: Arc<T>) -> (r: Result<T, Arc<T>>)
    ensures r is Ok, r->Ok_0 == *x
{ Arc::try_unwrap(x) }

#[verifier::external_body]
pub fn mem_replace<T>(x: &mut T, v: T) -> (r: T)
    ensures r == *old(x), *final(x) == v
{ std::mem::replace(x, v) }

pub assume_specification<T, U, F: FnOnce(T) -> U>[Option::<T>::map_or](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { None => r == d, Some(x) => f.ensures((x,), r) };


pub trait VSlice<E> {
    fn vextend(&mut self, w: Vec<E>);
    fn vget_mut(&mut self, i: usize) -> (r: Option<&mut E>);
    fn vlast_mut(&mut self) -> (r: Option<&mut E>);
    fn vlast(&self) -> (r: Option<&E>);
}
impl<E> VSlice<E> for Vec<E> {
    #[verifier::external_body]
    fn vextend(&mut self, w: Vec<E>)
        ensures final(self)@ == old(self)@ + w@
    { self.extend(w) }

    #[verifier::external_body]
    fn vget_mut(&mut self, i: usize) -> (r: Option<&mut E>)
        ensures match r {
            Some(x) => i < old(self)@.len() && *x == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(x)),
            None => i >= old(self)@.len() && *final(self) == *old(self),
        }
    { self.get_mut(i) }

    #[verifier::external_body]
    fn vlast_mut(&mut self) -> (r: Option<&mut E>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && *x == old(self)@.last()
                && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(x)),
            None => old(self)@.len() == 0 && *final(self) == *old(self),
        }
    { self.last_mut() }

    #[verifier::external_body]
    fn vlast(&self) -> (r: Option<&E>)
        ensures match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 }
    { self.last() }
}

pub assume_specification<T: ?Sized, A: std::alloc::Allocator>[<Arc<T, A> as AsRef<T>>::as_ref](a: &Arc<T, A>) -> (r: &T)
    ensures r == &**a;
