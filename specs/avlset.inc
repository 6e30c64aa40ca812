#raw
// ---------------------------------------------------------------------------
// AvlSet: a map to ().
// ---------------------------------------------------------------------------
#source src/avl/avl_set.rs
#expand make_set_op_iter src/lib.rs
#subst \bcrate::avl::Iter< => MapIter<
#subst \bcrate::avl::IntoIter< => MapIntoIter<
#subst \bcrate::SetOpIter\b => SetOpIter
#subst \bIter\b => SetIter
#subst \bIntoIter\b => SetIntoIter
#subst \bMapIter\b => Iter
#subst \bMapIntoIter\b => IntoIter
#subst \bsuper::(diff|intersect|union|sym_diff|len|rm)\( => \1(
#subst \bArc::make_mut\( => arc_make_mut(
#subst \bArc::try_unwrap\( => arc_try_unwrap(
#subst \bArc::ptr_eq\( => arc_ptr_eq(
#subst ,\s*\(\)(?=[>)]) => ,Unit
#subst \.last_mut\(\) => .vlast_mut()
#subst \.clone\(\) => .vclone()
#raw
spec fn selems<T>(s: AvlSet<T>) -> Seq<(T, Unit)> { mels(s.map) }
spec fn swf<T: Ord>(s: AvlSet<T>) -> bool { mwf(s.map) }
#item struct AvlSet
#raw
#prop C15
#fn Clone@AvlSet::clone -> r +keeptrait
    ensures r == *self,
#raw
#item struct Iter
#item struct IntoIter
#prop C01 C09
#fn AvlSet::append
    requires swf(*old(self)), swf(*old(other)), lawful::<T>(), old(self).map.len + old(other).map.len <= usize::MAX,
    ensures
        swf(*final(self)), swf(*final(other)), selems(*final(other)) == Seq::<(T, Unit)>::empty(),
        forall|k: T| #[trigger] has_key(selems(*final(self)), kcut(k)) == (has_key(selems(*old(self)), kcut(k)) || has_key(selems(*old(other)), kcut(k))),
@tail
    proof { lemma_has::<T, Unit>(); }
#fn AvlSet::clear +where=T:Ord
    ensures swf(*final(self)), selems(*final(self)) == Seq::<(T, Unit)>::empty(),
@begin
    broadcast use lemma_sorted_empty;
    proof { node(None::<Arc<Node<T, Unit>>>); }
#fn AvlSet::contains -> r +where=T:Ord
    requires swf(*self), lawful_q::<T, Q>(),
    ensures r == has_key(selems(*self), qcut::<T, Q>(*value)),
#fn AvlSet::first -> r +where=T:Ord
    requires swf(*self),
    ensures
        selems(*self).len() == 0 ==> r is None,
        selems(*self).len() > 0 ==> r is Some && *(r->0) == selems(*self)[0].0,
@closure 0 (e: (&T, &Unit)) -> (r: &T)
    ensures r == e.0,
#fn AvlSet::get -> r +where=T:Ord
    requires swf(*self), lawful_q::<T, Q>(),
    ensures match m_get(selems(*self), qcut::<T, Q>(*value)) {
        None => r is None,
        Some(e) => r is Some && *(r->0) == e.0,
    },
@closure 0 (e: (&T, &Unit)) -> (r: &T)
    ensures r == e.0,
#fn AvlSet::insert -> r
    requires swf(*old(self)), lawful::<T>(), old(self).map.len < usize::MAX,
    ensures
        swf(*final(self)),
        selems(*final(self)) == m_ins(selems(*old(self)), value, Unit),
        r == !has_key(selems(*old(self)), kcut(value)),
#fn AvlSet::is_empty -> r
    ensures r == (self.map.len == 0),
#fn AvlSet::last -> r +where=T:Ord
    requires swf(*self),
    ensures
        selems(*self).len() == 0 ==> r is None,
        selems(*self).len() > 0 ==> r is Some && *(r->0) == selems(*self).last().0,
@closure 0 (e: (&T, &Unit)) -> (r: &T)
    ensures r == e.0,
#fn AvlSet::len -> r
    ensures r == self.map.len,
#fn AvlSet::new -> r +where=T:Ord
    ensures swf(r), selems(r) == Seq::<(T, Unit)>::empty(),
@begin
    broadcast use lemma_sorted_empty;
    proof { node(None::<Arc<Node<T, Unit>>>); }
#fn Default@AvlSet::default -> r +where=T:Ord
    ensures swf(r), selems(r) == Seq::<(T, Unit)>::empty(),
#fn AvlSet::new_diff -> r
    requires swf(lhs), swf(rhs), lawful::<T>(), lhs.map.len + rhs.map.len <= usize::MAX,
    ensures
        swf(r),
        forall|k: T| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(lhs), kcut(k)) && !has_key(selems(rhs), kcut(k))),
        forall|k: T| #[trigger] m_get(selems(r), kcut(k)) == s_sub(m_get(selems(lhs), kcut(k)), m_get(selems(rhs), kcut(k))),
@begin
    proof { lemma_has::<T, Unit>(); lemma_mwf(lhs.map); lemma_mwf(rhs.map); }
#fn AvlSet::new_intersection -> r
    requires swf(lhs), swf(rhs), lawful::<T>(), lhs.map.len + rhs.map.len <= usize::MAX,
    ensures
        swf(r),
        forall|k: T| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(lhs), kcut(k)) && has_key(selems(rhs), kcut(k))),
        forall|k: T| #[trigger] m_get(selems(r), kcut(k)) == s_and(m_get(selems(lhs), kcut(k)), m_get(selems(rhs), kcut(k))),
@begin
    proof { lemma_has::<T, Unit>(); lemma_mwf(lhs.map); lemma_mwf(rhs.map); }
#fn AvlSet::new_union -> r
    requires swf(lhs), swf(rhs), lawful::<T>(), lhs.map.len + rhs.map.len <= usize::MAX,
    ensures
        swf(r),
        forall|k: T| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(lhs), kcut(k)) || has_key(selems(rhs), kcut(k))),
        forall|k: T| #[trigger] m_get(selems(r), kcut(k)) == s_or(m_get(selems(lhs), kcut(k)), m_get(selems(rhs), kcut(k))),
@begin
    proof { lemma_has::<T, Unit>(); lemma_mwf(lhs.map); lemma_mwf(rhs.map); }
#fn AvlSet::new_sym_diff -> r
    requires swf(lhs), swf(rhs), lawful::<T>(), lhs.map.len + rhs.map.len <= usize::MAX,
    ensures
        swf(r),
        forall|k: T| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(lhs), kcut(k)) != has_key(selems(rhs), kcut(k))),
        forall|k: T| #[trigger] m_get(selems(r), kcut(k)) == s_xor(m_get(selems(lhs), kcut(k)), m_get(selems(rhs), kcut(k))),
@begin
    proof { lemma_has::<T, Unit>(); lemma_mwf(lhs.map); lemma_mwf(rhs.map); }
#fn BitAnd@AvlSet::bitand -> r
    requires swf(*self), swf(*rhs), lawful::<K>(), self.map.len + rhs.map.len <= usize::MAX,
    ensures
        swf(r),
        forall|k: K| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(*self), kcut(k)) && has_key(selems(*rhs), kcut(k))),
#fn BitOr@AvlSet::bitor -> r
    requires swf(*self), swf(*rhs), lawful::<K>(), self.map.len + rhs.map.len <= usize::MAX,
    ensures
        swf(r),
        forall|k: K| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(*self), kcut(k)) || has_key(selems(*rhs), kcut(k))),
#fn BitXor@AvlSet::bitxor -> r
    requires swf(*self), swf(*rhs), lawful::<K>(), self.map.len + rhs.map.len <= usize::MAX,
    ensures
        swf(r),
        forall|k: K| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(*self), kcut(k)) != has_key(selems(*rhs), kcut(k))),
#fn Sub@AvlSet::sub -> r
    requires swf(*self), swf(*rhs), lawful::<K>(), self.map.len + rhs.map.len <= usize::MAX,
    ensures
        swf(r),
        forall|k: K| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(*self), kcut(k)) && !has_key(selems(*rhs), kcut(k))),
#fn AvlSet::pop_first -> r +where=T:Ord
    requires swf(*old(self)), lawful::<T>(),
    ensures
        swf(*final(self)),
        r is None <==> selems(*old(self)).len() == 0,
        r is None ==> selems(*final(self)) == selems(*old(self)),
        r is Some ==> selems(*old(self)) == seq![(r->0, Unit)] + selems(*final(self)),
@closure 0 (e: (T, Unit)) -> (r: T)
    ensures r == e.0, e.1 == Unit,
#fn AvlSet::pop_last -> r +where=T:Ord
    requires swf(*old(self)), lawful::<T>(),
    ensures
        swf(*final(self)),
        r is None <==> selems(*old(self)).len() == 0,
        r is None ==> selems(*final(self)) == selems(*old(self)),
        r is Some ==> selems(*old(self)) == selems(*final(self)).push((r->0, Unit)),
@closure 0 (e: (T, Unit)) -> (r: T)
    ensures r == e.0, e.1 == Unit,
#fn AvlSet::remove -> r
    requires swf(*old(self)), lawful_q::<T, Q>(),
    ensures
        swf(*final(self)),
        selems(*final(self)) == m_rm(selems(*old(self)), qcut::<T, Q>(*value)),
        r == has_key(selems(*old(self)), qcut::<T, Q>(*value)),
#fn AvlSet::take -> r
    requires swf(*old(self)), lawful_q::<T, Q>(),
    ensures
        swf(*final(self)),
        selems(*final(self)) == m_rm(selems(*old(self)), qcut::<T, Q>(*value)),
        match m_get(selems(*old(self)), qcut::<T, Q>(*value)) { None => r is None, Some(e) => r == Some(e.0) },
@begin
    proof { lemma_mwf(self.map); lemma_rm_sorted(selems(*self), qcut::<T, Q>(*value)); }
#fn AvlSet::replace -> r
    requires swf(*old(self)), lawful::<T>(), old(self).map.len < usize::MAX,
    ensures
        swf(*final(self)),
        selems(*final(self)) == m_ins(selems(*old(self)), value, Unit),
        match m_get(selems(*old(self)), kcut(value)) { None => r is None, Some(e) => r == Some(e.0) },
@begin
    proof { lemma_lawful_refl::<T>(); lemma_mwf(self.map); lemma_rm_ins(selems(*self), value, Unit); lemma_rm_sorted(selems(*self), kcut(value)); }
#fn AvlSet::split_off -> r
    requires swf(*old(self)), lawful_q::<T, Q>(),
    ensures
        swf(*final(self)), swf(r),
        selems(*old(self)) == selems(*final(self)) + selems(r),
        below(selems(*final(self)), qcut::<T, Q>(*key)),
        selems(r).len() > 0 ==> !(qcut::<T, Q>(*key)(selems(r)[0].0) is Greater),
#fn Set@AvlSet::insert_ -> r
    requires swf(*old(self)), lawful::<T>(), old(self).map.len < usize::MAX,
    ensures
        swf(*final(self)),
        selems(*final(self)) == m_ins(selems(*old(self)), value, Unit),
        r == !has_key(selems(*old(self)), kcut(value)),
#prop C09
#fn AvlSet::iter -> r +where=T:Ord
    requires swf(*self),
    ensures over(r.iter.iter, selems(*self)),
#fn IntoIterator@AvlSet::into_iter -> r +where=T:Ord +nth=1
    requires swf(self),
    ensures over(r.iter.iter, selems(self)),
#fn IntoIterator@AvlSet::into_iter -> r +where=T:Ord +nth=0 +name=into_iter_ref
    requires swf(*self),
    ensures over(r.iter.iter, selems(*self)),
#fn Iterator@Iter::next -> r
    requires ready(old(self).iter.iter),
    ensures nexts(old(self).iter.iter, final(self).iter.iter, (match r { Some(k) => Some((k, &Unit)), None => None }), true),
@closure 0 (e: (&'a T, &'a Unit)) -> (r: &'a T)
    ensures r == e.0,
#fn Iterator@Iter::size_hint -> r
    ensures r.0 == self.iter.iter.len, r.1 == Some(self.iter.iter.len),
#fn ExactSizeIterator@Iter::len -> r
    ensures r == self.iter.iter.len,
#fn Iterator@IntoIter::next -> r
    requires ready(old(self).iter.iter),
    ensures nexts(old(self).iter.iter, final(self).iter.iter, (match r { Some(k) => Some((k, Unit)), None => None }), true),
@closure 0 (e: (T, Unit)) -> (r: T)
    ensures r == e.0, e.1 == Unit,
#fn Iterator@IntoIter::size_hint -> r
    ensures r.0 == self.iter.iter.len, r.1 == Some(self.iter.iter.len),
#fn ExactSizeIterator@IntoIter::len -> r
    ensures r == self.iter.iter.len,
#raw
impl<'a, T> VIter for SetIter<'a, T> {
    type Item = &'a T;
    spec fn todo(&self) -> Seq<&'a T> { refs(flat(self.iter.iter.work@)) }
    #[verifier::prophetic]
    spec fn ok(&self) -> bool { ready(self.iter.iter) }
    // forwards to the contract of the real `next`
    fn next(&mut self) -> (r: Option<&'a T>) {
        let ghost o = *self;
        let r = SetIter::<'a, T>::next(self);
        proof {
            match r {
                Some(k) => { assert(refs::<T>(seq![(*k, Unit)] + flat(self.iter.iter.work@)).skip(1) =~= refs(flat(self.iter.iter.work@))); },
                None => { lemma_ends(self.iter.iter.work@); },
            }
        }
        r
    }
}
// the lazy set operation P of two sets
spec fn lazy<'a, T: Ord, const P: u32>(i: SetOpIter<SetIter<'a, T>, P>, a: AvlSet<T>, b: AvlSet<T>) -> bool {
    &&& ups(i.pend())
    &&& forall|x: &'a T| #[trigger] mem(i.pend(), x) <==> in_op(P, has_key(selems(a), kcut(*x)), has_key(selems(b), kcut(*x)))
}
proof fn lemma_lazy<'a, T: Ord + 'a>(a: AvlSet<T>, b: AvlSet<T>, p: u32)
    requires swf(a), swf(b), lawful::<T>(),
    ensures is_op(set_op(refs::<T>(selems(a)), refs::<T>(selems(b)), p), refs::<T>(selems(a)), refs::<T>(selems(b)), p),
        forall|k: &'a T| #[trigger] mem(refs::<T>(selems(a)), k) == has_key(selems(a), kcut(*k)),
        forall|k: &'a T| #[trigger] mem(refs::<T>(selems(b)), k) == has_key(selems(b), kcut(*k)),
{
    lemma_mwf(a.map); lemma_mwf(b.map);
    lemma_refs::<T>(selems(a)); lemma_refs::<T>(selems(b));
    lemma_ref_lawful::<T>();
    lemma_op::<&'a T>(refs::<T>(selems(a)), refs::<T>(selems(b)), p);
}
proof fn lemma_disjoint<'a, T: Ord + 'a>(a: AvlSet<T>, b: AvlSet<T>)
    requires lawful::<T>(),
    ensures forall|i: SetOpIter<SetIter<'a, T>, 2>| #[trigger] lazy(i, a, b) ==>
        (i.pend().len() == 0) == !(exists|k: T| has_key(selems(a), kcut(k)) && has_key(selems(b), kcut(k))),
{
    assert(2u32 & 2 != 0 && 2u32 & 1 == 0 && 2u32 & 4 == 0) by (bit_vector);
    lemma_ref_lawful::<T>();
    assert forall|i: SetOpIter<SetIter<'a, T>, 2>| #[trigger] lazy(i, a, b) implies
        (i.pend().len() == 0) == !(exists|k: T| has_key(selems(a), kcut(k)) && has_key(selems(b), kcut(k))) by {
        if i.pend().len() > 0 {
            let x = i.pend()[0];
            law_flip(x, x);
            assert(eqv(i.pend()[0], x));
            assert(mem(i.pend(), x));
        }
        if exists|k: T| has_key(selems(a), kcut(k)) && has_key(selems(b), kcut(k)) {
            let k = choose|k: T| has_key(selems(a), kcut(k)) && has_key(selems(b), kcut(k));
            assert(mem(i.pend(), &k));
        }
    }
}
#prop C10
#item struct Difference +attr=verifier::reject_recursive_types(T)
#item struct Intersection +attr=verifier::reject_recursive_types(T)
#item struct Union +attr=verifier::reject_recursive_types(T)
#item struct SymmetricDifference +attr=verifier::reject_recursive_types(T)
#fn Difference::new -> r +where=T:Ord
    requires lhs.ok(), rhs.ok(),
    ensures r.iter.0.lhs.todo() == lhs.todo(), r.iter.0.rhs.todo() == rhs.todo(),
#fn Iterator@Difference::next -> r
    requires lawful::<T>(),
    ensures
        match r {
            Some(x) => old(self).iter.pend().len() > 0 && x == old(self).iter.pend()[0] && final(self).iter.pend() == old(self).iter.pend().skip(1),
            None => old(self).iter.pend().len() == 0 && final(self).iter.pend().len() == 0,
        },
@begin
    proof { lemma_ref_lawful::<T>(); }
#fn AvlSet::difference -> r
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures lazy(r.iter, *self, *other),
@begin
    proof { lemma_lazy::<T>(*self, *other, 4u32); }
#fn Intersection::new -> r +where=T:Ord
    requires lhs.ok(), rhs.ok(),
    ensures r.iter.0.lhs.todo() == lhs.todo(), r.iter.0.rhs.todo() == rhs.todo(),
#fn Iterator@Intersection::next -> r
    requires lawful::<T>(),
    ensures
        match r {
            Some(x) => old(self).iter.pend().len() > 0 && x == old(self).iter.pend()[0] && final(self).iter.pend() == old(self).iter.pend().skip(1),
            None => old(self).iter.pend().len() == 0 && final(self).iter.pend().len() == 0,
        },
@begin
    proof { lemma_ref_lawful::<T>(); }
#fn AvlSet::intersection -> r
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures lazy(r.iter, *self, *other),
@begin
    proof { lemma_lazy::<T>(*self, *other, 2u32); }
#fn Union::new -> r +where=T:Ord
    requires lhs.ok(), rhs.ok(),
    ensures r.iter.0.lhs.todo() == lhs.todo(), r.iter.0.rhs.todo() == rhs.todo(),
#fn Iterator@Union::next -> r
    requires lawful::<T>(),
    ensures
        match r {
            Some(x) => old(self).iter.pend().len() > 0 && x == old(self).iter.pend()[0] && final(self).iter.pend() == old(self).iter.pend().skip(1),
            None => old(self).iter.pend().len() == 0 && final(self).iter.pend().len() == 0,
        },
@begin
    proof { lemma_ref_lawful::<T>(); }
#fn AvlSet::union -> r +where=T:Ord
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures lazy(r.iter, *self, *other),
@begin
    proof { lemma_lazy::<T>(*self, *other, 7u32); }
#fn SymmetricDifference::new -> r +where=T:Ord
    requires lhs.ok(), rhs.ok(),
    ensures r.iter.0.lhs.todo() == lhs.todo(), r.iter.0.rhs.todo() == rhs.todo(),
#fn Iterator@SymmetricDifference::next -> r
    requires lawful::<T>(),
    ensures
        match r {
            Some(x) => old(self).iter.pend().len() > 0 && x == old(self).iter.pend()[0] && final(self).iter.pend() == old(self).iter.pend().skip(1),
            None => old(self).iter.pend().len() == 0 && final(self).iter.pend().len() == 0,
        },
@begin
    proof { lemma_ref_lawful::<T>(); }
#fn AvlSet::symmetric_difference -> r +where=T:Ord
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures lazy(r.iter, *self, *other),
@begin
    proof { lemma_lazy::<T>(*self, *other, 5u32); }
#prop C09
#fn AvlSet::is_disjoint -> r
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures r == !(exists|k: T| has_key(selems(*self), kcut(k)) && has_key(selems(*other), kcut(k))),
@begin
    proof { lemma_disjoint::<T>(*self, *other); }
#raw
#[verifier::external_body]
fn arc_ptr_eq<T>(a: &Arc<T>, b: &Arc<T>) -> (r: bool)
    ensures r ==> **a == **b
{ Arc::ptr_eq(a, b) }

// one item of the work list of is_subset: a node, its left subtree done or not
spec fn witem<K, V>(x: (&Arc<Node<K, V>>, bool)) -> Seq<(K, V)> {
    if x.1 { seq![(x.0.key, x.0.val)] + els(x.0.right) } else { nels(**x.0) }
}
spec fn wrest<K, V>(w: Seq<(&Arc<Node<K, V>>, bool)>) -> Seq<(K, V)>
    decreases w.len()
{
    if w.len() == 0 { Seq::empty() } else { witem(w.last()) + wrest(w.drop_last()) }
}
spec fn wleft<K, V>(w: Seq<(&Arc<Node<K, V>>, bool)>) -> bool {
    forall|i: int| 0 <= i < w.len() && !(#[trigger] w[i]).1 ==> (w[i].0).left is Some
}
// b is a without some first entries, all of them up to k (below k if strict)
#[verifier::opaque]
spec fn adv<K: Ord, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, k: K, strict: bool) -> bool {
    &&& b.len() <= a.len()
    &&& b == a.skip(a.len() - b.len())
    &&& forall|i: int| 0 <= i < a.len() - b.len() ==> if strict { lt(#[trigger] a[i].0, k) } else { !(a[i].0.cmp_spec(&k) is Greater) }
}
proof fn lemma_adv_refl<K: Ord, V>(a: Seq<(K, V)>, k: K)
    ensures adv(a, a, k, true),
{
    reveal(adv);
    assert(a.skip(0) =~= a);
}
// drop a first part
proof fn lemma_adv_drop<K: Ord, V>(a: Seq<(K, V)>, x: Seq<(K, V)>, b: Seq<(K, V)>, k: K, strict: bool)
    requires a == x + b, forall|i: int| 0 <= i < x.len() ==> if strict { lt(#[trigger] x[i].0, k) } else { !(x[i].0.cmp_spec(&k) is Greater) },
    ensures adv(a, b, k, strict),
{
    reveal(adv);
    assert(a.skip(x.len() as int) =~= b);
    assert forall|i: int| 0 <= i < a.len() - b.len() implies if strict { lt(#[trigger] a[i].0, k) } else { !(a[i].0.cmp_spec(&k) is Greater) } by { assert(a[i] == x[i]); }
}
proof fn lemma_adv_trans<K: Ord, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, c: Seq<(K, V)>, k: K, s: bool, l: K, t: bool)
    requires adv(a, b, k, s), adv(b, c, l, t), lawful::<K>(), lt(k, l) || (k.cmp_spec(&l) is Equal && (s || !t)),
    ensures adv(a, c, l, t),
{
    reveal(adv);
    let n = a.len() - b.len();
    assert(c =~= a.skip(a.len() - c.len()));
    assert forall|i: int| 0 <= i < a.len() - c.len() implies if t { lt(#[trigger] a[i].0, l) } else { !(a[i].0.cmp_spec(&l) is Greater) } by {
        if i < n { law_trans(a[i].0, k, l); law_flip(a[i].0, k); law_flip(k, l); law_flip(a[i].0, l); law_trans(k, l, a[i].0); law_trans(l, k, a[i].0); }
        else { assert(a[i] == b[i - n]); }
    }
}
// what lies above the dropped entries is found the same
proof fn lemma_adv_has<K: Ord, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, k: K, s: bool)
    requires adv(a, b, k, s), lawful::<K>(), sorted(a),
    ensures
        sorted(b),
        forall|x: K| lt(k, x) || (s && k.cmp_spec(&x) is Equal) ==> #[trigger] has_key(a, kcut(x)) == has_key(b, kcut(x)),
        forall|x: K| has_key(b, kcut(x)) ==> #[trigger] has_key(a, kcut(x)),
{
    reveal(adv);
    let n = a.len() - b.len();
    reveal(sorted);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies lt(#[trigger] b[i].0, #[trigger] b[j].0) by { assert(lt(a[i + n].0, a[j + n].0)); }
    assert forall|x: K| has_key(b, kcut(x)) implies #[trigger] has_key(a, kcut(x)) by {
        lemma_has_at(b, x); lemma_has_at(a, x);
        let i = choose|i: int| 0 <= i < b.len() && eqv(#[trigger] b[i].0, x);
        assert(a[i + n] == b[i]);
    }
    assert forall|x: K| (lt(k, x) || (s && k.cmp_spec(&x) is Equal)) && has_key(a, kcut(x)) implies has_key(b, kcut(x)) by {
        lemma_has_at(b, x); lemma_has_at(a, x);
        let i = choose|i: int| 0 <= i < a.len() && eqv(#[trigger] a[i].0, x);
        if i < n { law_trans(a[i].0, k, x); law_flip(a[i].0, k); law_flip(a[i].0, x); law_flip(k, x); law_trans(k, x, a[i].0); }
        else { assert(b[i - n] == a[i]); }
    }
}
// what the keys of l, e, r are
proof fn lemma_has_cat<K: Ord, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>)
    requires lawful::<K>(), sorted(cat(l, e, r)),
    ensures
        forall|x: K| #[trigger] has_key(cat(l, e, r), kcut(x)) == (has_key(l, kcut(x)) || eqv(e.0, x) || has_key(r, kcut(x))),
        sorted(l), sorted(r),
        forall|x: K| #[trigger] has_key(l, kcut(x)) ==> lt(x, e.0),
        forall|x: K| #[trigger] has_key(r, kcut(x)) ==> lt(e.0, x),
        l.len() > 0 ==> lt(l.last().0, e.0),
        r.len() > 0 ==> lt(e.0, r.last().0) && cat(l, e, r).last() == r.last(),
        r.len() == 0 ==> cat(l, e, r).last() == e,
        forall|i: int| 0 <= i < l.len() ==> lt(#[trigger] l[i].0, e.0),
        forall|i: int| 0 <= i < r.len() ==> lt(e.0, #[trigger] r[i].0),
{
    let s = cat(l, e, r);
    lemma_sorted_cat(l, e, r);
    reveal(all_lt); reveal(all_gt);
    assert(s[l.len() as int] == e);
    assert(forall|i: int| 0 <= i < l.len() ==> s[i] == #[trigger] l[i]);
    assert(forall|i: int| 0 <= i < r.len() ==> s[i + 1 + l.len()] == #[trigger] r[i]);
    assert forall|x: K| #[trigger] has_key(l, kcut(x)) implies lt(x, e.0) by {
        lemma_has_at(l, x);
        let i = choose|i: int| 0 <= i < l.len() && eqv(#[trigger] l[i].0, x);
        law_flip(l[i].0, x); law_trans(x, l[i].0, e.0);
    }
    assert forall|x: K| #[trigger] has_key(r, kcut(x)) implies lt(e.0, x) by {
        lemma_has_at(r, x);
        let i = choose|i: int| 0 <= i < r.len() && eqv(#[trigger] r[i].0, x);
        law_trans(e.0, r[i].0, x);
    }
    assert forall|x: K| #[trigger] has_key(s, kcut(x)) == (has_key(l, kcut(x)) || eqv(e.0, x) || has_key(r, kcut(x))) by {
        lemma_has_at(s, x); lemma_has_at(l, x); lemma_has_at(r, x);
        if has_key(s, kcut(x)) {
            let i = choose|i: int| 0 <= i < s.len() && eqv(#[trigger] s[i].0, x);
            if i < l.len() { assert(eqv(l[i].0, x)); }
            if i > l.len() { assert(r[i - 1 - l.len()] == s[i]); assert(eqv(r[i - 1 - l.len()].0, x)); }
        }
        if has_key(l, kcut(x)) { let i = choose|i: int| 0 <= i < l.len() && eqv(#[trigger] l[i].0, x); assert(eqv(s[i].0, x)); }
        if has_key(r, kcut(x)) { let i = choose|i: int| 0 <= i < r.len() && eqv(#[trigger] r[i].0, x); assert(eqv(s[i + 1 + l.len()].0, x)); }
        if eqv(e.0, x) { assert(eqv(s[l.len() as int].0, x)); }
    }
}
pub broadcast proof fn lemma_upd_drop<E>(s: Seq<E>, i: int, x: E)
    requires 0 <= i == s.len() - 1,
    ensures #[trigger] s.update(i, x).drop_last() == s.drop_last(),
{
    assert(s.update(i, x).drop_last() =~= s.drop_last());
}
pub broadcast proof fn lemma_upd_sub<E>(s: Seq<E>, i: int, x: E, j: int)
    requires 0 <= i == s.len() - 1, j == i,
    ensures #[trigger] s.update(i, x).subrange(0, j) == s.drop_last(),
{
    assert(s.update(i, x).subrange(0, j) =~= s.drop_last());
}
broadcast proof fn lemma_wrest_one<K, V>(w: Seq<(&Arc<Node<K, V>>, bool)>)
    requires w.len() == 1, w[0].1 ==> (**w[0].0).left is None,
    ensures #[trigger] wrest(w) == nels(**w[0].0),
{
    let e = Seq::<(&Arc<Node<K, V>>, bool)>::empty();
    assert(w =~= e.push(w[0]));
    lemma_wrest_push(e, w[0]);
    assert(nels(**w[0].0) =~= nels(**w[0].0) + wrest(e));
}
broadcast proof fn lemma_wrest_push<K, V>(w: Seq<(&Arc<Node<K, V>>, bool)>, x: (&Arc<Node<K, V>>, bool))
    ensures
        #[trigger] wrest(w.push(x)) == witem(x) + wrest(w),
        x.1 && (**x.0).left is None ==> witem(x) == nels(**x.0),
{
    let y = anode(*x.0);
    node(y.left);
    assert(nels(y) =~= els(y.left) + (seq![(y.key, y.val)] + els(y.right)));
    if y.left is None { assert(nels(y) =~= seq![(y.key, y.val)] + els(y.right)); }
    assert(w.push(x).drop_last() =~= w);
}
// the work list's first node, left done or not
spec fn wtop<K, V>(w: Seq<(&Arc<Node<K, V>>, bool)>) -> nat {
    if w.len() == 0 { 0 } else { nels(**w.last().0).len() }
}
// what one step of has_all learns
proof fn lemma_has_step<K: Ord, V>(r0: Seq<(K, V)>, w: Seq<(&Arc<Node<K, V>>, bool)>, n: Node<K, V>)
    requires
        lawful::<K>(), w.len() > 0, wleft(w), sorted(r0), sorted(nels(n)), adv(r0, wrest(w), n.key, true),
        forall|x: K| #[trigger] has_key(els(n.left), kcut(x)) ==> has_key(r0, kcut(x)),
    ensures ({
        let x = w.last();
        let y = **x.0;
        let d = wrest(w.drop_last());
        let up = els(y.right) + d;
        &&& wrest(w) == witem(x) + d
        &&& sorted(wrest(w)) && sorted(up) && sorted(d)
        &&& y == n ==> adv(r0, d, nels(n).last().0, false) && within(nels(n), r0)
        &&& lt(n.key, y.key) && x.1 ==> !has_key(r0, kcut(n.key))
        &&& n.key.cmp_spec(&y.key) is Equal ==> adv(r0, up, n.key, false) && has_key(r0, kcut(n.key))
        &&& n.key.cmp_spec(&y.key) is Greater ==> adv(r0, up, n.key, true)
        &&& !x.1 ==> y.left is Some && ({
                let z = *(y.left->0);
                &&& nels(z) == els(y.left)
                &&& witem((x.0, false)) + d == nels(z) + (witem((x.0, true)) + d)
            })
        &&& up.len() < wrest(w).len()
        &&& y.right is None ==> up == d
        &&& y.right is Some ==> els(y.right) == nels(*(y.right->0))
        &&& w.len() == 1 ==> w.drop_last().len() == 0
    }),
{
    let x = w.last();
    let y = **x.0;
    let d = wrest(w.drop_last());
    let up = els(y.right) + d;
    let all = wrest(w);
    let l = if x.1 { Seq::empty() } else { els(y.left) };
    lemma_adv_has(r0, all, n.key, true);
    assert(w[w.len() - 1] == x);
    node(y.left); node(y.right);
    if y.right is None { assert(up =~= d); }
    assert(all =~= cat(l, (y.key, y.val), up));
    lemma_has_cat(l, (y.key, y.val), up);
    lemma_sorted_plus(els(y.right), d);
    lemma_has_cat(els(n.left), (n.key, n.val), els(n.right));
    law_flip(n.key, y.key);
    if y == n {
        assert(nels(n).len() > 0);
        let last = nels(n).last().0;
        if !x.1 {
            assert(all =~= nels(n) + d);
            assert forall|i: int| 0 <= i < nels(n).len() implies !((#[trigger] nels(n)[i]).0.cmp_spec(&last) is Greater) by {
                reveal(sorted);
                if i < nels(n).len() - 1 { assert(lt(nels(n)[i].0, nels(n)[nels(n).len() - 1].0)); law_flip(nels(n)[i].0, last); }
                else { law_flip(last, last); }
            }
            lemma_adv_drop(all, nels(n), d, last, false);
        } else {
            let t = seq![(n.key, n.val)] + els(n.right);
            assert(all =~= t + d);
            assert(t.last() == nels(n).last());
            assert forall|i: int| 0 <= i < t.len() implies !((#[trigger] t[i]).0.cmp_spec(&last) is Greater) by {
                assert(t[i] == nels(n)[i + els(n.left).len()]);
                reveal(sorted);
                if i < t.len() - 1 { assert(lt(nels(n)[i + els(n.left).len()].0, nels(n)[nels(n).len() - 1].0)); law_flip(t[i].0, last); }
                else { law_flip(last, last); }
            }
            lemma_adv_drop(all, t, d, last, false);
        }
        assert(last == n.key || lt(n.key, last));
        law_flip(n.key, n.key);
        lemma_adv_trans(r0, all, d, n.key, true, last, false);
        assert forall|k: K| has_key(nels(n), kcut(k)) implies #[trigger] has_key(r0, kcut(k)) by {
            if !has_key(els(n.left), kcut(k)) {
                lemma_has_at(els(n.right), k); lemma_has_at(up, k);
                if has_key(els(n.right), kcut(k)) {
                    let i = choose|i: int| 0 <= i < els(n.right).len() && eqv(#[trigger] els(n.right)[i].0, k);
                    assert(up[i] == els(n.right)[i]);
                    assert(eqv(up[i].0, k));
                }
                assert(has_key(all, kcut(k)));
            }
        }
    }
    if lt(n.key, y.key) && x.1 {
        if has_key(r0, kcut(n.key)) {
            law_flip(n.key, n.key);
            assert(has_key(all, kcut(n.key)));
            assert(!has_key(l, kcut(n.key))) by { lemma_has_at(l, n.key); }
            law_trans(n.key, y.key, n.key);
            assert(false);
        }
    }
    let h = l.push((y.key, y.val));
    assert(all =~= h + up);
    if !lt(n.key, y.key) {
        let strict = n.key.cmp_spec(&y.key) is Greater;
        assert forall|i: int| 0 <= i < h.len() implies if strict { lt(#[trigger] h[i].0, n.key) } else { !(h[i].0.cmp_spec(&n.key) is Greater) } by {
            if i < l.len() { assert(h[i] == l[i]); law_trans(l[i].0, y.key, n.key); law_flip(l[i].0, n.key); }
        }
        lemma_adv_drop(all, h, up, n.key, strict);
        law_flip(n.key, n.key);
        lemma_adv_trans(r0, all, up, n.key, true, n.key, strict);
        if !strict { assert(eqv(y.key, n.key)); assert(has_key(all, kcut(n.key))); }
    }
    if !x.1 {
        assert(witem((x.0, false)) + d =~= els(y.left) + (witem((x.0, true)) + d));
    }
}
// n's key was found, up is what lies above it: the rest is up to n's right subtree
proof fn lemma_has_right<K: Ord, V>(r0: Seq<(K, V)>, up: Seq<(K, V)>, n: Node<K, V>)
    requires
        lawful::<K>(), sorted(r0), sorted(nels(n)), adv(r0, up, n.key, false), has_key(r0, kcut(n.key)),
        forall|x: K| #[trigger] has_key(els(n.left), kcut(x)) ==> has_key(r0, kcut(x)),
    ensures
        forall|z: Seq<(K, V)>| #[trigger] adv(up, z, els(n.right).last().0, false) && els(n.right).len() > 0 ==> adv(r0, z, nels(n).last().0, false),
        n.right is None ==> adv(r0, up, nels(n).last().0, false) && within(nels(n), r0),
        within(els(n.right), up) ==> within(nels(n), r0),
        !within(els(n.right), up) ==> !within(nels(n), r0),
{
    let (l, e, r) = (els(n.left), (n.key, n.val), els(n.right));
    node(n.right);
    lemma_has_cat(l, e, r);
    lemma_adv_has(r0, up, n.key, false);
    if n.right is None { assert forall|k: K| has_key(r, kcut(k)) implies #[trigger] has_key(up, kcut(k)) by { lemma_has_at(r, k); } }
    assert forall|z: Seq<(K, V)>| #[trigger] adv(up, z, r.last().0, false) && r.len() > 0 implies adv(r0, z, nels(n).last().0, false) by {
        lemma_adv_trans(r0, up, z, n.key, false, r.last().0, false);
    }
    if within(r, up) {
        assert forall|k: K| has_key(nels(n), kcut(k)) implies #[trigger] has_key(r0, kcut(k)) by {
            if has_key(r, kcut(k)) { assert(has_key(up, kcut(k))); }
            else if !has_key(l, kcut(k)) {
                lemma_has_at(r0, k); lemma_has_at(r0, n.key);
                let i = choose|i: int| 0 <= i < r0.len() && eqv(#[trigger] r0[i].0, n.key);
                law_eq(r0[i].0, n.key, k);
                assert(eqv(r0[i].0, k));
            }
        }
    } else {
        let k = choose|k: K| has_key(r, kcut(k)) && !#[trigger] has_key(up, kcut(k));
        assert(has_key(nels(n), kcut(k)));
        assert(lt(n.key, k));
        assert(!has_key(r0, kcut(k)));
    }
}
#fn AvlSet::is_subset>has_all -> r
    requires lawful::<K>(), sorted(nels(**lhs)), wleft(old(w)@), sorted(wrest(old(w)@)),
    ensures
        wleft(final(w)@),
        r ==> adv(wrest(old(w)@), wrest(final(w)@), nels(**lhs).last().0, false) && within(nels(**lhs), wrest(old(w)@)),
        !r ==> !within(nels(**lhs), wrest(old(w)@)),
    decreases nels(**lhs).len()
@begin
    broadcast use {lemma_upd_drop, lemma_upd_sub, lemma_wrest_push};
    let ghost r0 = wrest(w@);
    let ghost n = anode(*lhs);
    proof {
        node(n.left); node(n.right);
        lemma_has_cat(els(n.left), (n.key, n.val), els(n.right));
        lemma_adv_refl(r0, n.key);
        law_flip(n.key, n.key);
        assert(eqv(n.key, n.key));
        assert(has_key(nels(n), kcut(n.key)));
        assert forall|x: K| n.left is None implies !#[trigger] has_key(els(n.left), kcut(x)) by { lemma_has_at(els(n.left), x); }
        assert forall|x: K| n.right is None implies !#[trigger] has_key(els(n.right), kcut(x)) by { lemma_has_at(els(n.right), x); }
    }
@before while let Some
    let ghost mut cur = w@;
    proof {
        lemma_adv_refl(wrest(w@), n.key);
        if els(n.left).len() > 0 { lemma_adv_trans(r0, wrest(w@), wrest(w@), els(n.left).last().0, false, n.key, true); }
    }
@loop 0
    invariant
        lawful::<K>(), n == **lhs, sorted(r0), sorted(nels(n)), cur == w@, wleft(cur), adv(r0, wrest(cur), n.key, true),
        r0 == wrest(old(w)@),
        forall|x: K| #[trigger] has_key(els(n.left), kcut(x)) ==> has_key(r0, kcut(x)),
        has_key(nels(n), kcut(n.key)),
    ensures w@.len() == 0, wleft(w@), adv(r0, wrest(w@), n.key, true), r0 == wrest(old(w)@), n == **lhs, has_key(nels(n), kcut(n.key)),
    decreases wrest(cur).len(), wtop(cur)
@body 0
    broadcast use {lemma_upd_drop, lemma_upd_sub, lemma_wrest_push};
    proof {
        lemma_has_step(r0, cur, n);
        let up = els(anode(*cur.last().0).right) + wrest(cur.drop_last());
        if adv(r0, up, n.key, false) && has_key(r0, kcut(n.key)) { lemma_has_right(r0, up, n); }
        node(n.right);
        lemma_has_cat(els(n.left), (n.key, n.val), els(n.right));
    }
@bodyend 0
    proof { cur = w@; }
@past 0
    proof {
        lemma_adv_has(r0, wrest(w@), n.key, true);
        assert(wrest(w@) =~= Seq::<(K, V)>::empty());
        lemma_has_at(wrest(w@), n.key);
        assert(has_key(nels(n), kcut(n.key)) && !has_key(r0, kcut(n.key)));
        assert(n == **lhs);
    }
#fn AvlSet::is_subset -> r
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures r == within(selems(*self), selems(*other)),
@begin
    let ghost (a, b) = (selems(*self), selems(*other));
    proof {
        lemma_mwf(self.map); lemma_mwf(other.map);
        node(self.map.root); node(other.map.root);
        assert forall|x: T| a.len() == 0 implies !#[trigger] has_key(a, kcut(x)) by { lemma_has_at(a, x); }
        if within(a, b) { lemma_within_each(a, b); lemma_within_len(a, b); }
    }
    broadcast use lemma_wrest_one;
#fn AvlSet::is_superset -> r
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures r == within(selems(*other), selems(*self)),
#fn AvlSet::range -> r +where=T:Ord
@ret 'q VMapped<Range<'q, T, Unit>, impl Fn((&'q T, &'q Unit)) -> &'q T>
    requires swf(*self), lawful_q::<T, Q>(),
    ensures
        ready(r.i.iter),
        flat(r.i.iter.work@) == sel(selems(*self), both(in_lo::<T, Q>(rlo::<Q, R>(range)), in_hi::<T, Q>(rhi::<Q, R>(range)))),
        forall|p: (&'q T, &'q Unit), o: &'q T| r.f.ensures((p,), o) ==> o == p.0,
@sub \.map\((?=\|) => .vmap_it(
@closure 0 (p: (&'q T, &'q Unit)) -> (o: &'q T)
    ensures o == p.0,
#raw
// b is a and what f keeps of s
spec fn grew<T, F: FnMut(&T) -> bool>(f: F, a: Seq<(T, Unit)>, b: Seq<(T, Unit)>, s: Seq<(T, Unit)>) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) == a && kept_by(f, s, b.skip(a.len() as int))
}
proof fn lemma_picks_plus<E>(s: Seq<E>, t: Seq<E>, o: Seq<bool>, p: Seq<bool>, b: bool)
    requires o.len() == s.len(), p.len() == t.len(),
    ensures picks(s + t, o + p, b) == picks(s, o, b) + picks(t, p, b),
    decreases t.len()
{
    if t.len() == 0 {
        assert(s + t =~= s && o + p =~= o);
        assert(picks(s, o, b) + picks(t, p, b) =~= picks(s, o, b));
    } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        lemma_picks_plus(s, t.drop_last(), o, p.drop_last(), b);
        assert forall|i: int| 0 <= i < (s + t).drop_last().len() implies (o + p)[i] == #[trigger] (o + p.drop_last())[i] by {}
        lemma_picks_eq((s + t).drop_last(), o + p, o + p.drop_last(), b);
        assert forall|i: int| 0 <= i < t.drop_last().len() implies p[i] == #[trigger] p.drop_last()[i] by {}
        lemma_picks_eq(t.drop_last(), p, p.drop_last(), b);
        assert(picks(s + t, o + p, b) =~= picks(s, o, b) + picks(t, p, b));
    }
}
proof fn lemma_grew_plus<T, F: FnMut(&T) -> bool>(f: F, a: Seq<(T, Unit)>, b: Seq<(T, Unit)>, c: Seq<(T, Unit)>, s: Seq<(T, Unit)>, t: Seq<(T, Unit)>)
    requires grew(f, a, b, s), grew(f, b, c, t),
    ensures grew(f, a, c, s + t),
{
    let n = a.len() as int;
    assert(c.take(n) =~= b.take(n)) by { assert forall|i: int| 0 <= i < n implies #[trigger] c.take(n)[i] == b.take(n)[i] by { assert(c.take(b.len() as int)[i] == c[i]); } }
    let o = choose|o: Seq<bool>| #[trigger] answers(f, s, o) && b.skip(n) == picks(s, o, true);
    let p = choose|p: Seq<bool>| #[trigger] answers(f, t, p) && c.skip(b.len() as int) == picks(t, p, true);
    assert forall|i: int| 0 <= i < (s + t).len() implies f.ensures((&(#[trigger] (s + t)[i]).0,), (o + p)[i]) by {
        if i < s.len() { assert((s + t)[i] == s[i]); } else { assert((s + t)[i] == t[i - s.len()]); }
    }
    assert(answers(f, s + t, o + p));
    lemma_picks_plus(s, t, o, p, true);
    assert(c.skip(n) =~= b.skip(n) + c.skip(b.len() as int)) by {
        assert forall|i: int| n <= i < b.len() implies c[i] == #[trigger] b[i] by { assert(c.take(b.len() as int)[i] == c[i]); }
    }
}
proof fn lemma_grew_none<T, F: FnMut(&T) -> bool>(f: F, a: Seq<(T, Unit)>)
    ensures grew(f, a, a, Seq::<(T, Unit)>::empty()),
{
    assert(answers(f, Seq::<(T, Unit)>::empty(), Seq::<bool>::empty()));
    assert(a.take(a.len() as int) =~= a);
    assert(a.skip(a.len() as int) =~= Seq::<(T, Unit)>::empty());
}
proof fn lemma_grew_one<T, F: FnMut(&T) -> bool>(f: F, a: Seq<(T, Unit)>, e: (T, Unit), b: bool)
    requires f.ensures((&e.0,), b),
    ensures grew(f, a, if b { a.push(e) } else { a }, seq![e]),
{
    let s = seq![e];
    let o = seq![b];
    let c = if b { a.push(e) } else { a };
    assert(answers(f, s, o));
    assert(s.drop_last() =~= Seq::<(T, Unit)>::empty());
    assert(picks(s.drop_last(), o, true) =~= Seq::<(T, Unit)>::empty());
    assert(c.skip(a.len() as int) =~= picks(s, o, true));
    assert(c.take(a.len() as int) =~= a);
}
proof fn lemma_grew_sorted<T: Ord, F: FnMut(&T) -> bool>(f: F, a: Seq<(T, Unit)>, b: Seq<(T, Unit)>, s: Seq<(T, Unit)>, t: Seq<(T, Unit)>)
    requires grew(f, a, b, s), sorted(a + s + t),
    ensures sorted(b + t), b.len() <= a.len() + s.len(),
{
    let o = choose|o: Seq<bool>| #[trigger] answers(f, s, o) && b.skip(a.len() as int) == picks(s, o, true);
    lemma_picks_sorted(a, s, o, t);
    assert(b + t =~= a + picks(s, o, true) + t) by {
        assert(b =~= b.take(a.len() as int) + b.skip(a.len() as int));
    }
}
proof fn lemma_put_last<K: Ord, V>(s: Seq<(K, V)>, k: K, v: V)
    requires sorted(s.push((k, v))), lawful::<K>(),
    ensures m_ins(s, k, v) == s.push((k, v)),
{
    let es = seq![(k, v)];
    assert(s + es =~= s.push((k, v)));
    lemma_sorted_plus(s, es);
    lemma_ext_sorted(s, es);
    assert(es.drop_last() =~= Seq::<(K, V)>::empty());
    assert(m_ext(s, es.drop_last()) == s);
}
#fn AvlSet::retain>dfs
    requires
        mwf(*old(acc)), lawful::<V>(), sorted(mels(*old(acc)) + nels(n)), old(acc).len + nels(n).len() <= usize::MAX,
        forall|k: &V| #[trigger] (*old(f)).requires((k,)),
    ensures
        *final(f) == *old(f), mwf(*final(acc)),
        grew(*old(f), mels(*old(acc)), mels(*final(acc)), nels(n)),
    decreases nels(n).len()
@sub ?\bArc::make_mut\(&mut (\w+)\);(\s*(?:if )?let Ok\(\w+\)) = Arc::try_unwrap\(\1\) => arc_make_mut(&mut \1);\2 = arc_try_unwrap_unique(\1)
@begin
    let ghost (l, e, r) = (els(n.left), (n.key, n.val), els(n.right));
    let ghost a0 = mels(*acc);
    let ghost g = *f;
    let ghost mut a = a0;
    let ghost none = Seq::<(V, Unit)>::empty();
    proof {
        node(n.left); node(n.right); lemma_mwf(*acc);
        assert(a0 + nels(n) =~= a0 + l + (seq![e] + r));
        assert(a0 + nels(n) =~= a0 + nels(n) + none);
        lemma_sorted_plus(a0 + l, seq![e] + r);
        if n.left is None { lemma_grew_none(g, a0); }
    }
@before ?if f\(
    proof {
        a = mels(*acc);
        lemma_mwf(*acc);
        lemma_grew_sorted(g, a0, a, l, seq![e] + r);
        if g.ensures((&e.0,), true) { lemma_grew_one(g, a, e, true); }
        if g.ensures((&e.0,), false) { lemma_grew_one(g, a, e, false); }
        assert(a + (seq![e] + r) =~= a.push(e) + r);
        lemma_sorted_plus(a.push(e), r);
        lemma_put_last(a, e.0, e.1);
    }
@before ?if let Some\(mut rt\)
    let ghost a2 = mels(*acc);
    proof {
        lemma_mwf(*acc);
        assert(grew(g, a, a2, seq![e]));
        assert(a + (seq![e] + r) =~= a + seq![e] + r);
        lemma_grew_sorted(g, a, a2, seq![e], r);
        lemma_grew_plus(g, a0, a, a2, l, seq![e]);
        assert(a0 + nels(n) =~= a0 + (l + seq![e]) + r);
        lemma_grew_sorted(g, a0, a2, l + seq![e], r);
        if n.right is None { lemma_grew_none(g, a2); }
    }
@tail
    proof {
        lemma_grew_plus(g, a0, a2, mels(*acc), l + seq![e], r);
        assert(nels(n) =~= l + seq![e] + r);
    }
#fn AvlSet::retain
    requires swf(*old(self)), lawful::<T>(), forall|k: &T| #[trigger] f.requires((k,)),
    ensures swf(*final(self)), kept_by(f, selems(*old(self)), selems(*final(self))),
@sub ?\bArc::make_mut\(&mut (\w+)\);(\s*(?:if )?let Ok\(\w+\)) = Arc::try_unwrap\(\1\) => arc_make_mut(&mut \1);\2 = arc_try_unwrap_unique(\1)
@begin
    broadcast use lemma_sorted_empty;
    let ghost m = self.map;
    let ghost none = Seq::<(T, Unit)>::empty();
    let ghost g = f;
    proof {
        node(m.root); lemma_mwf(m);
        lemma_grew_none(f, none);
        assert(none + mels(m) =~= mels(m));
    }
@tail
    proof {
        assert(selems(*self).skip(0) =~= selems(*self));
    }
#prop C01 C09
#fn Extend@AvlSet::extend +nth=1
    requires swf(*old(self)), lawful::<T>(), old(self).map.len + yields(iter).len() <= usize::MAX,
    ensures swf(*final(self)), selems(*final(self)) == m_ext(selems(*old(self)), units(yields(iter))),
@sub \bin iter\b => in it__: vec_of(iter)
@begin
    let ghost s0 = selems(*self);
    let ghost src = units(yields(iter));
    proof { lemma_mwf(self.map); }
@loop 0
    invariant
        it__.seq() == yields(iter), src == units(yields(iter)), 0 <= it__.index@ <= src.len(),
        swf(*self), lawful::<T>(), sorted(s0), s0.len() + src.len() <= usize::MAX,
        selems(*self) == m_ext(s0, src.take(it__.index@)),
@body 0
    proof {
        lemma_mwf(self.map);
        lemma_ext(s0, src.take(it__.index@));
        lemma_ext_step(s0, src, it__.index@);
    }
@past 0
    proof { assert(src.take(src.len() as int) =~= src); }
#fn Extend@AvlSet::extend +nth=0 +name=extend_ref
    requires swf(*old(self)), lawful::<T>(), old(self).map.len + yields(iter).len() <= usize::MAX,
    ensures swf(*final(self)), selems(*final(self)) == m_ext(selems(*old(self)), units(copied(yields(iter)))),
@sub \bin iter\b => in it__: vec_of(iter)
@begin
    let ghost s0 = selems(*self);
    let ghost src = units(copied(yields(iter)));
    proof { lemma_mwf(self.map); }
@loop 0
    invariant
        it__.seq() == yields(iter), src == units(copied(yields(iter))), 0 <= it__.index@ <= src.len(),
        swf(*self), lawful::<T>(), sorted(s0), s0.len() + src.len() <= usize::MAX,
        selems(*self) == m_ext(s0, src.take(it__.index@)),
@body 0
    proof {
        lemma_mwf(self.map);
        lemma_ext(s0, src.take(it__.index@));
        lemma_ext_step(s0, src, it__.index@);
    }
@past 0
    proof { assert(src.take(src.len() as int) =~= src); }
#fn FromIterator@AvlSet::from_iter -> r
    requires lawful::<T>(), yields(iter).len() <= usize::MAX,
    ensures swf(r), selems(r) == m_ext(Seq::<(T, Unit)>::empty(), units(yields(iter))),
@begin
    broadcast use lemma_sorted_empty;
    proof { node(None::<Arc<Node<T, Unit>>>); }
#fn From@AvlSet::from -> r
    requires lawful::<T>(),
    ensures swf(r), selems(r) == m_ext(Seq::<(T, Unit)>::empty(), units(value@)),
@sub (\w+)\.into_iter\(\) => vec_arr(\1)
@begin
    broadcast use axiom_yields_vec;
