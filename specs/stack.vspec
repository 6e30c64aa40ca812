#include header.inc
#include yields.inc
#include viter.inc
#include seqcmp.inc
#include refs.inc
#source src/stack.rs
#subst \bRc::make_mut\( => rc_make_mut(
#subst \bRc::try_unwrap\( => rc_try_unwrap(
#subst \.clone\(\) => .vclone()
#raw
pub assume_specification<T: std::default::Default>[std::mem::take](x: &mut T) -> (r: T)
    ensures r == *old(x), T::default.ensures((), *final(x));

#[verifier::external_body]
pub fn rc_try_unwrap<T>(x: Rc<T>) -> (r: Result<T, Rc<T>>)
    ensures match r { Ok(t) => t == *x, Err(a) => a == x }
{ Rc::try_unwrap(x) }

#[verifier::external_body]
pub fn rc_get_mut<T>(x: &mut Rc<T>) -> (r: Option<&mut T>)
    ensures match r {
        Some(t) => *t == **old(x) && *final(t) == **final(x),
        None => *final(x) == *old(x),
    }
{ Rc::get_mut(x) }
// o.and_then(Rc::get_mut)
fn vget_muts<T>(o: Option<&mut Rc<T>>) -> (r: Option<&mut T>)
    ensures match r {
        Some(t) => o is Some && *t == **(o->0) && *final(t) == **final(o->0),
        None => true,
    }
{ match o { Some(x) => rc_get_mut(x), None => None } }
#item type OptList
#item struct List
#item struct Stack
#item struct Iter
#item struct IterMut
#item struct IntoIter
#raw
#prop C15
#fn Clone@List::clone -> r +keeptrait
    ensures r == *self,
#fn Clone@Stack::clone -> r +keeptrait
    ensures r == *self,
#raw
// --- abstract value: the elements, top first -------------------------------
spec fn lst<T>(o: OptList<T>) -> Seq<T>
    decreases o
{
    match o {
        None => Seq::empty(),
        Some(rc) => seq![rc.elem] + lst(rc.rest),
    }
}
spec fn stk<T>(s: Stack<T>) -> Seq<T> { lst(s.elems) }
// the representation invariant
spec fn swf<T>(s: Stack<T>) -> bool { s.len == stk(s).len() }

proof fn lemma_lst<T>(o: OptList<T>)
    ensures
        (lst(o).len() == 0) == (o is None),
        o is Some ==> lst(o) == seq![o->0.elem] + lst(o->0.rest) && lst(o).skip(1) =~= lst(o->0.rest)
            && lst(o)[0] == o->0.elem && lst(o).len() == 1 + lst(o->0.rest).len(),
{
}

broadcast proof fn lemma_lst_some<T>(rc: Rc<List<T>>)
    ensures #[trigger] lst(Some(rc)) == seq![rc.elem] + lst(rc.rest),
{
}
// x without the element at place i
spec fn without<T>(s: Seq<T>, i: int) -> Seq<T> { s.take(i) + s.skip(i + 1) }
#prop C11
#fn Stack::new -> r
    ensures swf(r), stk(r) == Seq::<T>::empty(),
#fn Stack::push
    requires swf(*old(self)), old(self).len < usize::MAX,
    ensures swf(*final(self)), stk(*final(self)) == seq![val] + stk(*old(self)),
#fn Stack::top -> r
    ensures
        r is Some <==> stk(*self).len() > 0,
        r is Some ==> *(r->0) == stk(*self)[0],
@begin
    proof { lemma_lst(self.elems); }
@closure 0 (n: &Rc<List<T>>) -> (r: &T)
    ensures *r == n.elem
#fn Stack::top_mut -> r
    requires swf(*old(self)),
    ensures
        swf(*final(self)),
        r is Some <==> stk(*old(self)).len() > 0,
        r is None ==> stk(*final(self)) == stk(*old(self)),
        r is Some ==> *(r->0) == stk(*old(self))[0]
            && stk(*final(self)) == stk(*old(self)).update(0, *final(r->0)),
@begin
    proof { lemma_lst(self.elems); }
@closure 0 (rc: &mut Rc<List<T>>) -> (r: &mut T)
    ensures *r == old(rc).elem, **final(rc) == (List { elem: *final(r), rest: old(rc).rest })
#fn Stack::pop -> r
    requires swf(*old(self)),
    ensures
        swf(*final(self)),
        stk(*old(self)).len() == 0 ==> r is None && stk(*final(self)) == stk(*old(self)),
        stk(*old(self)).len() > 0 ==> r == Some(stk(*old(self))[0]) && stk(*final(self)) == stk(*old(self)).skip(1),
@begin
    proof { lemma_lst(self.elems); }
#fn Stack::len -> r
    requires swf(*self),
    ensures r == stk(*self).len(),
#fn Stack::is_empty -> r
    requires swf(*self),
    ensures r == (stk(*self).len() == 0),
#fn Stack::clear
    ensures swf(*final(self)), stk(*final(self)) == Seq::<T>::empty(),
@sub ?([\w.]+)\.as_mut\(\)\.and_then\(Rc::get_mut\) => vget_muts(\1.as_mut())
@loop 0
    invariant self.len == 0, self.elems is None,
    decreases lst(hd).len(),
#fn Stack::remove -> r
    requires swf(*old(self)), at < old(self).len,
    ensures
        swf(*final(self)),
        r == stk(*old(self))[old(self).len - 1 - at],
        stk(*final(self)) == without(stk(*old(self)), old(self).len - 1 - at),
@begin
    let ghost s0 = lst(self.elems);
    let ghost k = self.len - 1 - at;
@loop 0
    invariant
        0 <= at <= k < s0.len(), s0.len() == self.len,
        lst(*curr) == s0.skip(k - at),
        lst(after_borrow(self.elems)) == s0.take(k - at) + lst(*final(curr)),
    decreases at,
@body 0
    let ghost c0 = *curr;
    let ghost d = k - at;
    proof { lemma_lst(*curr); }
@bodyend 0
    proof {
        assert(lst(*curr) =~= s0.skip(d + 1));
        assert(s0.take(d) + seq![s0[d]] =~= s0.take(d + 1));
        assert(lst(after_borrow(self.elems)) =~= s0.take(d + 1) + lst(*final(curr)));
    }
@past 0
    proof { lemma_lst(*curr); assert(s0.skip(k).skip(1) =~= s0.skip(k + 1)); }
#fn Stack::split_off -> r
    requires swf(*old(self)), at <= old(self).len,
    ensures
        swf(*final(self)), swf(r),
        stk(r) == stk(*old(self)).take(old(self).len - at),
        stk(*final(self)) == stk(*old(self)).skip(old(self).len - at),
@begin
    let ghost s0 = lst(self.elems);
    let ghost k = self.len - at;
    proof { lemma_lst(self.elems); }
@loop 0
    invariant
        0 <= at <= k < s0.len(), s0.len() == self.len,
        lst(*curr) == s0.skip(k - at),
        lst(after_borrow(self.elems)) == s0.take(k - at) + lst(*final(curr)),
    decreases at,
@body 0
    let ghost c0 = *curr;
    let ghost d = k - at;
    proof { lemma_lst(*curr); }
@bodyend 0
    proof {
        assert(lst(*curr) =~= s0.skip(d + 1));
        assert(s0.take(d) + seq![s0[d]] =~= s0.take(d + 1));
        assert(lst(after_borrow(self.elems)) =~= s0.take(d + 1) + lst(*final(curr)));
    }
@past 0
    proof { lemma_lst(*curr); }
#raw
// --- iterators: what is still to be yielded ---------------------------------
spec fn todo<'a, T>(i: Iter<'a, T>) -> Seq<&'a T> { drefs(lst(*i.next)) }
spec fn mtodo<'a, T>(i: IterMut<'a, T>) -> Seq<T> {
    match i.next { None => Seq::empty(), Some(rc) => lst(Some(*rc)) }
}
// what these elements are when the iterator and its references are gone
#[verifier::prophetic]
spec fn mfinal<'a, T>(i: IterMut<'a, T>) -> Seq<T> {
    match i.next { None => Seq::empty(), Some(rc) => lst(Some(*final(rc))) }
}
impl<'a, T> VIter for Iter<'a, T> {
    type Item = &'a T;
    spec fn todo(&self) -> Seq<&'a T> { todo(*self) }
    #[verifier::prophetic]
    spec fn ok(&self) -> bool { true }
    // forwards to the contract of the real `next`
    fn next(&mut self) -> (r: Option<&'a T>) { Iter::<'a, T>::next(self) }
}
#fn Iterator@Iter::next -> r
    ensures
        match r {
            Some(x) => todo(*old(self)).len() > 0 && x == todo(*old(self))[0] && todo(*final(self)) == todo(*old(self)).skip(1),
            None => todo(*old(self)).len() == 0 && todo(*final(self)).len() == 0,
        },
@begin
    proof { lemma_lst(*self.next); lemma_drefs(lst(*self.next)); }
#fn Stack::iter -> r
    ensures todo(r) == drefs(stk(*self)), r.todo() == drefs(stk(*self)),
#fn Iterator@IterMut::next -> r
    ensures
        match r {
            Some(x) => mtodo(*old(self)).len() > 0
                && mtodo(*old(self)) == seq![*x] + mtodo(*final(self))
                && mfinal(*old(self)) == seq![*final(x)] + mfinal(*final(self)),
            None => mtodo(*old(self)).len() == 0 && mfinal(*old(self)).len() == 0 && mtodo(*final(self)).len() == 0,
        },
@begin
    broadcast use lemma_lst_some;
@sub ?([\w.]+\(\))\.map\(\|(\w+)\| \{([\s\S]*)\}\) => match \1 { Some(\2) => Some({\3}), None => None }
#fn Stack::iter_mut -> r
    ensures
        mtodo(r) == stk(*old(self)), mfinal(r) == stk(*final(self)),
        final(self).len == old(self).len,
#fn Iterator@IntoIter::next -> r
    requires swf(old(self).stk),
    ensures
        swf(final(self).stk),
        stk(old(self).stk).len() == 0 ==> r is None && stk(final(self).stk).len() == 0,
        stk(old(self).stk).len() > 0 ==> r == Some(stk(old(self).stk)[0]) && stk(final(self).stk) == stk(old(self).stk).skip(1),
#fn IntoIterator@Stack::into_iter -> r
    ensures r.stk == self,
#fn Stack::contains -> r
    ensures r == exists|i: int| 0 <= i < stk(*self).len() && x.eq_spec(&#[trigger] stk(*self)[i]),
@begin
    proof { lemma_drefs(stk(*self)); }
@sub \.any\(\|(\w+)\| x == \1\) => .vany_eq(x)
#fn Default@Stack::default -> r
    ensures swf(r), stk(r) == Seq::<T>::empty(),
#fn Drop@Stack::drop
    ensures swf(*final(self)), stk(*final(self)) == Seq::<T>::empty(),
#fn Extend@Stack::extend
    requires swf(*old(self)), old(self).len + yields(iter).len() <= usize::MAX,
    ensures swf(*final(self)), stk(*final(self)) == yields(iter).reverse() + stk(*old(self)),
@sub \bin iter\b => in it__: vec_of(iter)
@begin
    let ghost s0 = stk(*self);
    let ghost src = yields(iter);
@loop 0
    invariant
        it__.seq() == src, 0 <= it__.index@ <= src.len(),
        swf(*self), s0.len() + src.len() <= usize::MAX,
        stk(*self) == src.take(it__.index@).reverse() + s0,
@bodyend 0
    proof { assert(stk(*self) =~= src.take(it__.index@ + 1).reverse() + s0); }
@past 0
    proof { assert(src.take(src.len() as int) =~= src); }
#fn FromIterator@Stack::from_iter -> r
    requires yields(iter).len() <= usize::MAX,
    ensures swf(r), stk(r) == yields(iter).reverse(),
@tail
    proof { assert(stk(s) =~= yields(iter).reverse()); }
#fn From@Stack::from -> r
    ensures swf(r), stk(r) == v@.reverse(),
@sub (\w+)\.into_iter\(\) => \1
@begin
    broadcast use axiom_yields_vec;
#prop C16
#fn PartialEq@Stack::eq -> r
    requires swf(*self), swf(*rhs),
    ensures r == seq_eq(drefs(stk(*self)), drefs(stk(*rhs))),
@begin
    proof { lemma_drefs(stk(*self)); lemma_drefs(stk(*rhs)); }
@sub ([\w.]+\(\))\.zip\( => vzip(\1, 
@sub \.all\(\|\((\w+), (\w+)\)\| \1 == \2\) => .vall_eq()
#fn PartialOrd@Stack::partial_cmp -> r
    ensures r == lex_pcmp(drefs(stk(*self)), drefs(stk(*other))),
@sub \ba\.partial_cmp\(b\) => vpartial_cmp(a, b)
@begin
    let ghost (sx, sy) = (drefs(stk(*self)), drefs(stk(*other)));
@loop 0
    invariant
        sx == drefs::<T>(stk(*self)), sy == drefs::<T>(stk(*other)),
        lex_pcmp(sx, sy) == lex_pcmp(todo(xs), todo(ys)),
    decreases todo(xs).len(),
@body 0
    let ghost (tx, ty) = (todo(xs), todo(ys));
#fn Ord@Stack::cmp -> r
    ensures r == lex_cmp(drefs(stk(*self)), drefs(stk(*rhs))),
@sub \.cmp\( => .vcmp(
#include footer.inc
