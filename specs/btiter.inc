#include niter.inc
#source src/btree.rs
#subst \bArc::make_mut\( => arc_make_mut(
#subst \bmap\(Arc::try_unwrap\) => vunwrap_arc()
#subst \bArc::try_unwrap\( => arc_try_unwrap(
#subst \.clone\(\) => .vclone()
#subst \.borrow\(\) => .vborrow()
#subst \bassert!\( => vassert!(
#subst \bassert_eq!\( => vassert_eq!(
#subst \bSliceIter\b => VSliceIter
#subst \bSliceIterMut\b => VSliceIterMut
#subst \bstd::vec::IntoIter\b => VVecIter
#subst \bstd::collections::VecDeque\b => VecDeque
#subst \bI:\s*DoubleEndedIterator\s*\+\s*ExactSizeIterator => I:VElems
#subst \bJ:\s*DoubleEndedIterator\s*\+\s*ExactSizeIterator => J:VKids<E=I::E>
#subst \b(DoubleEndedIterator|ExactSizeIterator|Iterator)\b => VDe
#subst \b(elems|kids)\.iter\(\) => \1.viter()
#subst \b(elems|kids)\.iter_mut\(\) => \1.viter_mut()
#subst \b(elems|kids)\.into_iter\(\) => \1.vinto()
#subst \bfront_mut\(\) => vfront_mut()
#subst \bback_mut\(\) => vback_mut()
#subst \bmake_node_iter:\s*fn\((.*?)\)\s*->\s*I\b => make_node_iter:VFn<\1,I>
#subst \(self\.make_node_iter\)\( => self.make_node_iter.call(
#subst \bmake_node_iter:\s*(make_\w+) => make_node_iter:VFn::of(\1)
#subst \bmake_node_iter,(?=\s*\}) => make_node_iter:VFn::of(make_node_iter),
#subst \bVecDeque::from\(\[(?P<x>[\s\S]*?),?\s*\]\) => vdeque_of(\g<x>)
#raw
trait VUnwrapArc<T> { fn vunwrap_arc(self) -> (r: Option<Result<T, Arc<T>>>); }
impl<T> VUnwrapArc<T> for Option<Arc<T>> {
    // self.map(Arc::try_unwrap)
    fn vunwrap_arc(self) -> (r: Option<Result<T, Arc<T>>>)
        ensures match (self, r) {
            (Some(a), Some(Ok(t))) => t == *a,
            (Some(a), Some(Err(b))) => b == a,
            (None, None) => true,
            _ => false,
        }
    { match self { Some(x) => Some(arc_try_unwrap(x)), None => None } }
}
// iterators over a node's entries / children: what their items stand for
trait VElems: VDe {
    type E;
    spec fn ev(x: Self::Item) -> Self::E;
    // the same when the borrows have ended; and whether the key is still the same then
    #[verifier::prophetic]
    spec fn fev(x: Self::Item) -> Self::E;
    #[verifier::prophetic]
    spec fn esame(x: Self::Item) -> bool;
}
trait VKids: VDe {
    type E;
    spec fn kok(c: Self::Item) -> bool;
    spec fn kh(c: Self::Item) -> nat;
    spec fn kv(c: Self::Item) -> Seq<Self::E>;
    #[verifier::prophetic]
    spec fn kfv(c: Self::Item) -> Seq<Self::E>;
    #[verifier::prophetic]
    spec fn ksame(c: Self::Item) -> bool;
}
#prop C08
#trait NodeIter
@sub trait NodeIter => trait NodeIter: Sized
@begin
    type E;
    // a child, however it is held
    type C;
    // entries and children not yet yielded
    spec fn ok(&self) -> bool;
    spec fn es(&self) -> Seq<Self::ElemItem>;
    spec fn ks(&self) -> Seq<Self::C>;
    spec fn lf(&self) -> bool;
    spec fn rt(&self) -> bool;
    spec fn ca(c: Self::ChildItem) -> Self::C;
    // an entry, and the entries under a child
    spec fn ev(x: Self::ElemItem) -> Self::E;
    spec fn kok(c: Self::C) -> bool;
    spec fn kh(c: Self::C) -> nat;
    spec fn kv(c: Self::C) -> Seq<Self::E>;
    // the same when the borrows have ended
    #[verifier::prophetic]
    spec fn fev(x: Self::ElemItem) -> Self::E;
    #[verifier::prophetic]
    spec fn esame(x: Self::ElemItem) -> bool;
    #[verifier::prophetic]
    spec fn kfv(c: Self::C) -> Seq<Self::E>;
    #[verifier::prophetic]
    spec fn ksame(c: Self::C) -> bool;
@method is_empty -> r
    requires self.ok(),
    ensures r == (self.es().len() == 0 && self.ks().len() == 0),
@method needs_lf_des -> r
    ensures r == self.lf(),
@method needs_rt_des -> r
    ensures r == self.rt(),
@method next_elem -> r
    requires old(self).ok(), !old(self).lf(),
    ensures
        final(self).ok(), final(self).ks() =~= old(self).ks(),
        final(self).lf() == (old(self).ks().len() > 0), final(self).rt() == old(self).rt(),
        match r {
            Some(x) => old(self).es().len() > 0 && x == old(self).es()[0] && final(self).es() =~= old(self).es().skip(1),
            None => old(self).es().len() == 0 && final(self).es() =~= old(self).es(),
        },
@method next_back_elem -> r
    requires old(self).ok(), !old(self).rt(),
    ensures
        final(self).ok(), final(self).ks() =~= old(self).ks(),
        final(self).rt() == (old(self).ks().len() > 0), final(self).lf() == old(self).lf(),
        match r {
            Some(x) => old(self).es().len() > 0 && x == old(self).es().last() && final(self).es() =~= old(self).es().drop_last(),
            None => old(self).es().len() == 0 && final(self).es() =~= old(self).es(),
        },
@method next_kid -> r
    requires old(self).ok(), old(self).lf() || old(self).ks().len() == 0,
    ensures
        final(self).ok(), final(self).es() =~= old(self).es(),
        !final(self).lf(), final(self).rt() == old(self).rt(),
        match r {
            Some(c) => old(self).ks().len() > 0 && Self::ca(c) == old(self).ks()[0] && final(self).ks() =~= old(self).ks().skip(1),
            None => old(self).ks().len() == 0 && final(self).ks() =~= old(self).ks(),
        },
@method next_back_kid -> r
    requires old(self).ok(), old(self).rt() || old(self).ks().len() == 0,
    ensures
        final(self).ok(), final(self).es() =~= old(self).es(),
        !final(self).rt(), final(self).lf() == old(self).lf(),
        match r {
            Some(c) => old(self).ks().len() > 0 && Self::ca(c) == old(self).ks().last() && final(self).ks() =~= old(self).ks().drop_last(),
            None => old(self).ks().len() == 0 && final(self).ks() =~= old(self).ks(),
        },
#raw
// ---------------------------------------------------------------------------
// What is left of a node: children and entries taken in turn, a child first
// when `l` says so.
// ---------------------------------------------------------------------------
spec fn alt<E>(l: bool, ks: Seq<Seq<E>>, es: Seq<E>) -> Seq<E>
    decreases ks.len() + es.len()
{
    if l && ks.len() > 0 { ks[0] + alt(false, ks.skip(1), es) }
    else if es.len() > 0 { seq![es[0]] + alt(ks.len() > 0, ks, es.skip(1)) }
    else { Seq::empty() }
}
spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
// as many children as the flags ask for
spec fn bal(l: bool, r: bool, k: int, e: int) -> bool { k == 0 || k - e == b2i(l) + b2i(r) - 1 }
proof fn lemma_alt_leaf<E>(l: bool, ks: Seq<Seq<E>>, es: Seq<E>)
    requires ks.len() == 0,
    ensures alt(l, ks, es) == es,
    decreases es.len()
{
    if es.len() > 0 {
        lemma_alt_leaf(false, ks, es.skip(1));
        assert(alt(l, ks, es) =~= es);
    } else {
        assert(alt(l, ks, es) =~= es);
    }
}
proof fn lemma_alt_back<E>(l: bool, r: bool, ks: Seq<Seq<E>>, es: Seq<E>)
    requires bal(l, r, ks.len() as int, es.len() as int),
    ensures
        r && ks.len() > 0 ==> alt(l, ks, es) == alt(l, ks.drop_last(), es) + ks.last(),
        !(r && ks.len() > 0) && es.len() > 0 ==> alt(l, ks, es) == alt(l, ks, es.drop_last()) + seq![es.last()],
    decreases ks.len() + es.len()
{
    if ks.len() == 0 {
        lemma_alt_leaf(l, ks, es);
        if es.len() > 0 {
            lemma_alt_leaf(l, ks, es.drop_last());
            assert(es =~= es.drop_last() + seq![es.last()]);
        }
    } else if l {
        let k1 = ks.skip(1);
        lemma_alt_back(false, r, k1, es);
        if r {
            if ks.len() == 1 {
                lemma_alt_leaf(false, k1, es);
                lemma_alt_leaf(l, ks.drop_last(), es);
                assert(es =~= Seq::<E>::empty());
                assert(alt(l, ks, es) =~= alt(l, ks.drop_last(), es) + ks.last());
            } else {
                assert(k1.drop_last() =~= ks.drop_last().skip(1));
                assert(alt(l, ks, es) =~= alt(l, ks.drop_last(), es) + ks.last());
            }
        } else {
            if k1.len() == 0 { lemma_alt_back(false, false, k1, es); }
            assert(alt(l, ks, es) =~= alt(l, ks, es.drop_last()) + seq![es.last()]);
        }
    } else if es.len() > 0 {
        let e1 = es.skip(1);
        lemma_alt_back(true, r, ks, e1);
        if r {
            if ks.len() == 1 {
                lemma_alt_leaf(true, ks.drop_last(), e1);
                lemma_alt_leaf(false, ks.drop_last(), e1);
            }
            assert(alt(l, ks, es) =~= alt(l, ks.drop_last(), es) + ks.last());
        } else {
            assert(es.len() > 1);
            assert(e1.drop_last() =~= es.drop_last().skip(1));
            assert(alt(l, ks, es) =~= alt(l, ks, es.drop_last()) + seq![es.last()]);
        }
    }
}
// a whole node
proof fn lemma_alt_suf<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int)
    requires ks.len() == es.len() + 1, 0 <= i <= es.len(),
    ensures alt(true, ks.skip(i), es.skip(i)) == kat(ks, i) + suf(ks, es, i),
    decreases es.len() - i
{
    let k = ks.skip(i);
    let e = es.skip(i);
    let k1 = k.skip(1);
    assert(alt(true, k, e) == ks[i] + alt(false, k1, e));
    if i == es.len() {
        lemma_alt_leaf(false, k1, e);
        assert(alt(true, k, e) =~= kat(ks, i) + suf(ks, es, i));
    } else {
        lemma_alt_suf(ks, es, i + 1);
        assert(k1 =~= ks.skip(i + 1));
        assert(e.skip(1) =~= es.skip(i + 1));
        assert(alt(true, k, e) =~= kat(ks, i) + suf(ks, es, i));
    }
}
proof fn lemma_alt_il<E>(ks: Seq<Seq<E>>, es: Seq<E>)
    requires ks.len() == 0 || ks.len() == es.len() + 1,
    ensures alt(ks.len() > 0, ks, es) == il(ks, es),
{
    if ks.len() == 0 {
        lemma_alt_leaf(false, ks, es);
        lemma_il_leaf(es);
        assert(ks =~= Seq::<Seq<E>>::empty());
    } else {
        lemma_alt_suf(ks, es, 0);
        assert(ks.skip(0) =~= ks);
        assert(es.skip(0) =~= es);
    }
}
spec fn kvs<I: NodeIter>(s: Seq<I::C>) -> Seq<Seq<I::E>> { Seq::new(s.len(), |i: int| I::kv(s[i])) }
spec fn evs<I: NodeIter>(s: Seq<I::ElemItem>) -> Seq<I::E> { Seq::new(s.len(), |i: int| I::ev(s[i])) }
#[verifier::prophetic]
spec fn fkvs<I: NodeIter>(s: Seq<I::C>) -> Seq<Seq<I::E>> { Seq::new(s.len(), |i: int| I::kfv(s[i])) }
#[verifier::prophetic]
spec fn fevs<I: NodeIter>(s: Seq<I::ElemItem>) -> Seq<I::E> { Seq::new(s.len(), |i: int| I::fev(s[i])) }
#[verifier::prophetic]
spec fn isame<I: NodeIter>(it: I) -> bool {
    (forall|i: int| 0 <= i < it.ks().len() ==> I::ksame(#[trigger] it.ks()[i])) && (forall|i: int| 0 <= i < it.es().len() ==> I::esame(#[trigger] it.es()[i]))
}
// what is left of a node: now, and when the borrows have ended
spec fn rem<I: NodeIter>(it: I) -> Seq<I::E> { alt(it.lf(), kvs::<I>(it.ks()), evs::<I>(it.es())) }
#[verifier::prophetic]
spec fn frem<I: NodeIter>(it: I) -> Seq<I::E> { alt(it.lf(), fkvs::<I>(it.ks()), fevs::<I>(it.es())) }
// a node in the work list; one that may be exhausted
spec fn sound<I: NodeIter>(it: I) -> bool {
    &&& it.ok()
    &&& bal(it.lf(), it.rt(), it.ks().len() as int, it.es().len() as int)
    &&& forall|i: int| 0 <= i < it.ks().len() ==> I::kok(#[trigger] it.ks()[i])
}
spec fn igood<I: NodeIter>(it: I) -> bool { sound(it) && it.ks().len() + it.es().len() > 0 }
// a node just opened
#[verifier::prophetic]
spec fn fresh<I: NodeIter>(it: I, c: I::C) -> bool {
    &&& sound(it)
    &&& it.es().len() > 0
    &&& it.lf() == (it.ks().len() > 0) && it.rt() == it.lf()
    &&& forall|i: int| 0 <= i < it.ks().len() ==> I::kh(#[trigger] it.ks()[i]) < I::kh(c)
    &&& rem(it) == I::kv(c)
    &&& isame(it) ==> I::ksame(c) && frem(it) == I::kfv(c)
}
#[verifier::prophetic]
spec fn makes<I: NodeIter>(f: VFn<I::ChildItem, I>) -> bool {
    &&& forall|c: I::ChildItem| I::kok(I::ca(c)) ==> #[trigger] f.req(c)
    &&& forall|c: I::ChildItem, it: I| I::kok(I::ca(c)) && #[trigger] f.ens(c, it) ==> fresh(it, I::ca(c))
}
spec fn flat<I: NodeIter>(w: Seq<I>) -> Seq<I::E>
    decreases w.len()
{
    if w.len() == 0 { Seq::empty() } else { flat(w.drop_last()) + rem(w.last()) }
}
#[verifier::prophetic]
spec fn fflat<I: NodeIter>(w: Seq<I>) -> Seq<I::E>
    decreases w.len()
{
    if w.len() == 0 { Seq::empty() } else { fflat(w.drop_last()) + frem(w.last()) }
}
#[verifier::prophetic]
spec fn same<I: NodeIter>(w: Seq<I>) -> bool
    decreases w.len()
{
    if w.len() == 0 { true } else { same(w.drop_last()) && isame(w.last()) }
}
spec fn good<I: NodeIter>(w: Seq<I>) -> bool
    decreases w.len()
{
    if w.len() == 0 { true } else { good(w.drop_last()) && igood(w.last()) }
}
#[verifier::prophetic]
spec fn steps_to<I: NodeIter>(a: I, w: Seq<I>, s: Seq<I>, front: bool) -> bool {
    &&& good(s) == (good(w) && igood(a))
    &&& same(s) == (same(w) && isame(a))
    &&& flat(s) == (if front { rem(a) + flat(w) } else { flat(w) + rem(a) })
    &&& fflat(s) == (if front { frem(a) + fflat(w) } else { fflat(w) + frem(a) })
}
proof fn lemma_push<I: NodeIter>(w: Seq<I>, a: I)
    ensures steps_to(a, w, w.push(a), false),
{
    assert(w.push(a).drop_last() =~= w);
}
proof fn lemma_front<I: NodeIter>(w: Seq<I>, a: I)
    ensures steps_to(a, w, seq![a] + w, true),
    decreases w.len()
{
    let s = seq![a] + w;
    if w.len() == 0 {
        assert(s =~= Seq::empty().push(a));
        lemma_push(Seq::empty(), a);
        assert(flat(s) =~= rem(a) + flat(w));
        assert(fflat(s) =~= frem(a) + fflat(w));
    } else {
        lemma_front(w.drop_last(), a);
        assert(s.drop_last() =~= seq![a] + w.drop_last());
        assert(flat(s) =~= rem(a) + flat(w));
        assert(fflat(s) =~= frem(a) + fflat(w));
    }
}
proof fn lemma_ends<I: NodeIter>(w: Seq<I>)
    ensures
        w.len() > 0 ==> steps_to(w[0], w.skip(1), w, true),
        w.len() > 0 ==> steps_to(w.last(), w.drop_last(), w, false),
        w.len() == 0 ==> flat(w) == Seq::<I::E>::empty() && fflat(w) == Seq::<I::E>::empty() && same(w) && good(w),
{
    if w.len() > 0 {
        assert(w =~= seq![w[0]] + w.skip(1));
        lemma_front(w.skip(1), w[0]);
        assert(w =~= w.drop_last().push(w.last()));
        lemma_push(w.drop_last(), w.last());
    }
}
// taking the first child, or the first entry, off a node
spec fn no_kids<I: NodeIter>(it: I) -> bool { it.ks().len() == 0 }
proof fn lemma_kid<I: NodeIter>(a: I, b: I, c: I::C, front: bool)
    requires
        sound(a), a.ks().len() > 0, b.ok(), b.es() == a.es(),
        if front { a.lf() && !b.lf() && b.rt() == a.rt() && b.ks() == a.ks().skip(1) && c == a.ks()[0] }
        else { a.rt() && !b.rt() && b.lf() == a.lf() && b.ks() == a.ks().drop_last() && c == a.ks().last() },
    ensures
        sound(b),
        rem(a) == (if front { I::kv(c) + rem(b) } else { rem(b) + I::kv(c) }),
        isame(b) && I::ksame(c) ==> isame(a),
        frem(a) == (if front { I::kfv(c) + frem(b) } else { frem(b) + I::kfv(c) }),
        I::kok(c),
        b.ks().len() + b.es().len() == 0 ==> rem(b) == Seq::<I::E>::empty() && frem(b) == Seq::<I::E>::empty() && isame(b),
{
    lemma_alt_back(a.lf(), a.rt(), kvs::<I>(a.ks()), evs::<I>(a.es()));
    lemma_alt_back(a.lf(), a.rt(), fkvs::<I>(a.ks()), fevs::<I>(a.es()));
    if front {
        assert(kvs::<I>(b.ks()) =~= kvs::<I>(a.ks()).skip(1));
        assert(fkvs::<I>(b.ks()) =~= fkvs::<I>(a.ks()).skip(1));
        assert(forall|i: int| 0 <= i < b.ks().len() ==> #[trigger] b.ks()[i] == a.ks()[i + 1]);
        assert(forall|i: int| 0 <= i < a.ks().len() ==> #[trigger] a.ks()[i] == (if i == 0 { c } else { b.ks()[i - 1] }));
    } else {
        assert(kvs::<I>(b.ks()) =~= kvs::<I>(a.ks()).drop_last());
        assert(fkvs::<I>(b.ks()) =~= fkvs::<I>(a.ks()).drop_last());
        assert(forall|i: int| 0 <= i < b.ks().len() ==> #[trigger] b.ks()[i] == a.ks()[i]);
        assert(forall|i: int| 0 <= i < a.ks().len() ==> #[trigger] a.ks()[i] == (if i == b.ks().len() { c } else { b.ks()[i] }));
    }
}
proof fn lemma_elem<I: NodeIter>(a: I, b: I, x: I::ElemItem, front: bool)
    requires
        sound(a), b.ok(), b.ks() == a.ks(), a.es().len() > 0,
        if front { (!a.lf() || no_kids(a)) && b.lf() == (a.ks().len() > 0) && b.rt() == a.rt() && b.es() == a.es().skip(1) && x == a.es()[0] }
        else { (!a.rt() || no_kids(a)) && b.rt() == (a.ks().len() > 0) && b.lf() == a.lf() && b.es() == a.es().drop_last() && x == a.es().last() },
    ensures
        sound(b),
        rem(a) == (if front { seq![I::ev(x)] + rem(b) } else { rem(b) + seq![I::ev(x)] }),
        isame(b) && I::esame(x) ==> isame(a),
        frem(a) == (if front { seq![I::fev(x)] + frem(b) } else { frem(b) + seq![I::fev(x)] }),
        b.ks().len() + b.es().len() == 0 ==> rem(b) == Seq::<I::E>::empty() && frem(b) == Seq::<I::E>::empty() && isame(b),
{
    lemma_alt_back(a.lf(), a.rt(), kvs::<I>(a.ks()), evs::<I>(a.es()));
    lemma_alt_back(a.lf(), a.rt(), fkvs::<I>(a.ks()), fevs::<I>(a.es()));
    if front {
        assert(evs::<I>(b.es()) =~= evs::<I>(a.es()).skip(1));
        assert(fevs::<I>(b.es()) =~= fevs::<I>(a.es()).skip(1));
        assert(forall|i: int| 0 <= i < b.es().len() ==> #[trigger] b.es()[i] == a.es()[i + 1]);
        assert(forall|i: int| 0 <= i < a.es().len() ==> #[trigger] a.es()[i] == (if i == 0 { x } else { b.es()[i - 1] }));
    } else {
        assert(evs::<I>(b.es()) =~= evs::<I>(a.es()).drop_last());
        assert(fevs::<I>(b.es()) =~= fevs::<I>(a.es()).drop_last());
        assert(forall|i: int| 0 <= i < b.es().len() ==> #[trigger] b.es()[i] == a.es()[i]);
        assert(forall|i: int| 0 <= i < a.es().len() ==> #[trigger] a.es()[i] == (if i == b.es().len() { x } else { b.es()[i] }));
    }
}
#item struct InnerIter +attr=verifier::reject_recursive_types(I)
#raw
spec fn ready<I: NodeIter>(i: InnerIter<I>) -> bool { good(i.work@) && flat(i.work@).len() <= i.len }
// one step: what came out, and what is left
#[verifier::prophetic]
spec fn stepped<I: NodeIter>(o: InnerIter<I>, n: InnerIter<I>, some: bool, x: I::E, fx: I::E, sx: bool, front: bool) -> bool {
    if !some {
        flat(o.work@).len() == 0 && n.work@.len() == 0 && o.work@.len() == 0 && n.len == o.len
    } else {
        &&& flat(o.work@) == (if front { seq![x] + flat(n.work@) } else { flat(n.work@) + seq![x] })
        &&& n.len == o.len - 1
        &&& good(n.work@)
        &&& sx && same(n.work@) ==> same(o.work@)
            && fflat(o.work@) == (if front { seq![fx] + fflat(n.work@) } else { fflat(n.work@) + seq![fx] })
    }
}
#[verifier::prophetic]
spec fn nexts<I: NodeIter>(o: InnerIter<I>, n: InnerIter<I>, r: Option<I::ElemItem>, front: bool) -> bool {
    n.make_node_iter == o.make_node_iter && stepped(o, n, r is Some, I::ev(r->0), I::fev(r->0), I::esame(r->0), front)
}
// the list, less the front (back) node if that is exhausted
spec fn less<I: NodeIter>(w: Seq<I>, b: I, front: bool) -> Seq<I> {
    if front { if b.ks().len() + b.es().len() == 0 { w.skip(1) } else { w.update(0, b) } }
    else { if b.ks().len() + b.es().len() == 0 { w.drop_last() } else { w.update(w.len() - 1, b) } }
}
spec fn plus<I: NodeIter>(w: Seq<I>, b: I, front: bool) -> Seq<I> { if front { seq![b] + w } else { w.push(b) } }
proof fn lemma_less<I: NodeIter>(w: Seq<I>, b: I, front: bool)
    requires w.len() > 0,
    ensures
        front ==> ({ let u = w.update(0, b); u.skip(1) == w.skip(1) && steps_to(b, w.skip(1), u, true) && steps_to(w[0], w.skip(1), w, true) }),
        !front ==> ({ let u = w.update(w.len() - 1, b); u.drop_last() == w.drop_last() && steps_to(b, w.drop_last(), u, false) && steps_to(w.last(), w.drop_last(), w, false) }),
{
    lemma_ends(w);
    if front {
        let u = w.update(0, b);
        lemma_ends(u);
        assert(u.skip(1) =~= w.skip(1));
    } else {
        let u = w.update(w.len() - 1, b);
        lemma_ends(u);
        assert(u.drop_last() =~= w.drop_last());
    }
}
proof fn lemma_assoc<E>(a: Seq<E>, b: Seq<E>, c: Seq<E>)
    ensures (a + b) + c == a + (b + c),
{
    assert((a + b) + c =~= a + (b + c));
}
proof fn lemma_empty_add<E>(a: Seq<E>)
    ensures a + Seq::<E>::empty() == a, Seq::<E>::empty() + a == a,
{
    assert(a + Seq::<E>::empty() =~= a);
    assert(Seq::<E>::empty() + a =~= a);
}
// descending: the end node gives up child c, which is opened as n
proof fn lemma_desc<I: NodeIter>(w: Seq<I>, b: I, c: I::C, n: I, front: bool)
    requires
        w.len() > 0, good(w), b.ok(), fresh(n, c),
        ({
            let a = if front { w[0] } else { w.last() };
            a.ks().len() > 0 && b.es() == a.es() &&
            if front { a.lf() && !b.lf() && b.rt() == a.rt() && b.ks() == a.ks().skip(1) && c == a.ks()[0] }
            else { a.rt() && !b.rt() && b.lf() == a.lf() && b.ks() == a.ks().drop_last() && c == a.ks().last() }
        }),
    ensures
        ({
            let v = plus(less(w, b, front), n, front);
            good(v) && flat(v) == flat(w) && (same(v) ==> same(w) && fflat(v) == fflat(w)) && v.len() > 0
                && (if front { v[0] == n } else { v.last() == n })
        }),
{
    let a = if front { w[0] } else { w.last() };
    let l = less(w, b, front);
    let v = plus(l, n, front);
    lemma_less(w, b, front);
    lemma_kid(a, b, c, front);
    if front {
        lemma_front(l, n);
        let t = w.skip(1);
        lemma_assoc(I::kv(c), rem(b), flat(t));
        lemma_assoc(I::kfv(c), frem(b), fflat(t));
        lemma_empty_add(flat(t)); lemma_empty_add(fflat(t));
        lemma_empty_add(I::kv(c)); lemma_empty_add(I::kfv(c));
    } else {
        lemma_push(l, n);
        let t = w.drop_last();
        lemma_assoc(flat(t), rem(b), I::kv(c));
        lemma_assoc(fflat(t), frem(b), I::kfv(c));
        lemma_empty_add(flat(t)); lemma_empty_add(fflat(t));
        lemma_empty_add(I::kv(c)); lemma_empty_add(I::kfv(c));
    }
}
// yielding: the end node gives up entry x
proof fn lemma_give<I: NodeIter>(w: Seq<I>, b: I, x: I::ElemItem, front: bool)
    requires
        w.len() > 0, good(w), b.ok(),
        ({
            let a = if front { w[0] } else { w.last() };
            b.ks() == a.ks() && a.es().len() > 0 &&
            if front { (!a.lf() || no_kids(a)) && b.lf() == (a.ks().len() > 0) && b.rt() == a.rt() && b.es() == a.es().skip(1) && x == a.es()[0] }
            else { (!a.rt() || no_kids(a)) && b.rt() == (a.ks().len() > 0) && b.lf() == a.lf() && b.es() == a.es().drop_last() && x == a.es().last() }
        }),
    ensures
        ({
            let v = less(w, b, front);
            good(v)
            && flat(w) == (if front { seq![I::ev(x)] + flat(v) } else { flat(v) + seq![I::ev(x)] })
            && (I::esame(x) && same(v) ==> same(w) && fflat(w) == (if front { seq![I::fev(x)] + fflat(v) } else { fflat(v) + seq![I::fev(x)] }))
        }),
{
    let a = if front { w[0] } else { w.last() };
    lemma_less(w, b, front);
    lemma_elem(a, b, x, front);
    let o = seq![I::ev(x)];
    let fo = seq![I::fev(x)];
    lemma_empty_add(o); lemma_empty_add(fo);
    if front {
        let t = w.skip(1);
        lemma_assoc(o, rem(b), flat(t));
        lemma_assoc(fo, frem(b), fflat(t));
        lemma_empty_add(flat(t)); lemma_empty_add(fflat(t));
    } else {
        let t = w.drop_last();
        lemma_assoc(flat(t), rem(b), o);
        lemma_assoc(fflat(t), frem(b), fo);
        lemma_empty_add(flat(t)); lemma_empty_add(fflat(t));
    }
}
// there is an entry to give once the flag is down
proof fn lemma_some<I: NodeIter>(a: I, front: bool)
    requires igood(a), if front { !a.lf() || no_kids(a) } else { !a.rt() || no_kids(a) },
    ensures a.es().len() > 0,
{
}
// the flag of a node without children does not matter
proof fn lemma_flag<I: NodeIter>(w: Seq<I>, b: I, front: bool)
    requires
        w.len() > 0, good(w), b.ok(),
        ({ let a = if front { w[0] } else { w.last() }; no_kids(a) && b.ks() == a.ks() && b.es() == a.es() }),
    ensures
        ({
            let v = if front { w.update(0, b) } else { w.update(w.len() - 1, b) };
            good(v) && flat(v) == flat(w) && (same(v) ==> same(w) && fflat(v) == fflat(w))
        }),
{
    let a = if front { w[0] } else { w.last() };
    lemma_less(w, b, front);
    lemma_alt_leaf(a.lf(), kvs::<I>(a.ks()), evs::<I>(a.es()));
    lemma_alt_leaf(b.lf(), kvs::<I>(a.ks()), evs::<I>(a.es()));
    lemma_alt_leaf(a.lf(), fkvs::<I>(a.ks()), fevs::<I>(a.es()));
    lemma_alt_leaf(b.lf(), fkvs::<I>(a.ks()), fevs::<I>(a.es()));
}
#fn Iterator@InnerIter::next -> r
    requires ready(*old(self)), makes(old(self).make_node_iter),
    ensures nexts(*old(self), *final(self), r, true),
@begin
    let ghost w0 = self.work@;
    let ghost f = self.make_node_iter;
    let ghost mut cur = self.work@;
    proof { lemma_ends(w0); }
@loop 0
    invariant_except_break
        *erg == cur[0],
        erg.lf() || no_kids(*erg), igood(*erg),
    invariant
        self.make_node_iter == f, makes(f), after_borrow(self.work)@ == cur.update(0, *final(erg)),
        cur.len() > 0, good(cur), flat(cur) == flat(w0), same(cur) ==> same(w0) && fflat(cur) == fflat(w0),
    ensures
        !erg.lf(), erg.ok(), no_kids(cur[0]), erg.es() == cur[0].es(), erg.ks() == cur[0].ks(),
    decreases (if erg.ks().len() > 0 { 1 + I::kh(erg.ks()[0]) } else { 0 }),
@body 0
    let ghost b = *erg;
    let ghost c = I::ca(kid);
    proof { lemma_ends(cur); lemma_less(cur, b, true); }
@bodyend 0
    proof {
        let n = *erg;
        lemma_desc(cur, b, c, n, true);
        cur = plus(less(cur, b, true), n, true);
        lemma_ends(cur);
    }
@past 0
    proof {
        lemma_flag(cur, *erg, true);
        cur = cur.update(0, *erg);
    }
@before ?let \w+ = \w+\.next_elem\(\);
    proof { lemma_ends(cur); lemma_some(*erg, true); }
@after ?let \w+ = \w+\.next_elem\(\);
    let ghost b = *erg;
    proof { lemma_give(cur, b, cur[0].es()[0], true); lemma_less(cur, b, true); }
@tail
    proof { assert(self.work@ =~= less(cur, b, true)); }
#fn DoubleEndedIterator@InnerIter::next_back -> r
    requires ready(*old(self)), makes(old(self).make_node_iter),
    ensures nexts(*old(self), *final(self), r, false),
@begin
    let ghost w0 = self.work@;
    let ghost f = self.make_node_iter;
    let ghost mut cur = self.work@;
    proof { lemma_ends(w0); }
@loop 0
    invariant_except_break
        *erg == cur.last(),
        erg.rt() || no_kids(*erg), igood(*erg),
    invariant
        self.make_node_iter == f, makes(f), after_borrow(self.work)@ == cur.update(cur.len() - 1, *final(erg)),
        cur.len() > 0, good(cur), flat(cur) == flat(w0), same(cur) ==> same(w0) && fflat(cur) == fflat(w0),
    ensures
        !erg.rt(), erg.ok(), no_kids(cur.last()), erg.es() == cur.last().es(), erg.ks() == cur.last().ks(),
    decreases (if erg.ks().len() > 0 { 1 + I::kh(erg.ks().last()) } else { 0 }),
@body 0
    let ghost b = *erg;
    let ghost c = I::ca(kid);
    proof { lemma_ends(cur); lemma_less(cur, b, false); }
@bodyend 0
    proof {
        let n = *erg;
        lemma_desc(cur, b, c, n, false);
        cur = plus(less(cur, b, false), n, false);
        lemma_ends(cur);
    }
@past 0
    proof {
        lemma_flag(cur, *erg, false);
        cur = cur.update(cur.len() - 1, *erg);
    }
@before ?let \w+ = \w+\.next_back_elem\(\);
    proof { lemma_ends(cur); lemma_some(*erg, false); }
@after ?let \w+ = \w+\.next_back_elem\(\);
    let ghost b = *erg;
    proof { lemma_give(cur, b, cur.last().es().last(), false); lemma_less(cur, b, false); }
@tail
    proof { assert(self.work@ =~= less(cur, b, false)); }
#item struct BorrowedNodeIter
#item type InnerNodeIter
#item struct Iter +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V) +attr=verifier::reject_recursive_types(N)
#fn NodeIter@BorrowedNodeIter::is_empty +keeptrait +with=needs_lf_des,needs_rt_des,next_elem,next_back_elem,next_kid,next_back_kid
@impl
    type E = I::E;
    type C = J::Item;
    spec fn ok(&self) -> bool { true }
    spec fn es(&self) -> Seq<I::Item> { self.elems.todo() }
    spec fn ks(&self) -> Seq<J::Item> { self.kids.todo() }
    spec fn lf(&self) -> bool { self.needs_lf_des }
    spec fn rt(&self) -> bool { self.needs_rt_des }
    spec fn ca(c: J::Item) -> J::Item { c }
    spec fn ev(x: I::Item) -> I::E { I::ev(x) }
    spec fn kok(c: J::Item) -> bool { J::kok(c) }
    spec fn kh(c: J::Item) -> nat { J::kh(c) }
    spec fn kv(c: J::Item) -> Seq<I::E> { J::kv(c) }
    #[verifier::prophetic]
    spec fn fev(x: I::Item) -> I::E { I::fev(x) }
    #[verifier::prophetic]
    spec fn esame(x: I::Item) -> bool { I::esame(x) }
    #[verifier::prophetic]
    spec fn kfv(c: J::Item) -> Seq<I::E> { J::kfv(c) }
    #[verifier::prophetic]
    spec fn ksame(c: J::Item) -> bool { J::ksame(c) }
#fn BorrowedNodeIter::new -> r
    ensures
        r.elems == elems, r.kids == kids,
        r.needs_lf_des == (kids.todo().len() > 0), r.needs_rt_des == (kids.todo().len() > 0),
#raw
// a child that may be opened
spec fn okid<K, V, const N: usize>(n: Node<K, V, N>) -> bool { okn::<N>() && shp(n, 1) }
impl<'a, K, V> VElems for VSliceIter<'a, (K, V)> {
    type E = (K, V);
    spec fn ev(x: &'a (K, V)) -> (K, V) { *x }
    #[verifier::prophetic]
    spec fn fev(x: &'a (K, V)) -> (K, V) { *x }
    #[verifier::prophetic]
    spec fn esame(x: &'a (K, V)) -> bool { true }
}
impl<'a, K, V, const N: usize> VKids for VSliceIter<'a, Arc<Node<K, V, N>>> {
    type E = (K, V);
    spec fn kok(c: &'a Arc<Node<K, V, N>>) -> bool { okid(**c) && (**c).elems.len() >= N }
    spec fn kh(c: &'a Arc<Node<K, V, N>>) -> nat { nh(**c) }
    spec fn kv(c: &'a Arc<Node<K, V, N>>) -> Seq<(K, V)> { nels(**c) }
    #[verifier::prophetic]
    spec fn kfv(c: &'a Arc<Node<K, V, N>>) -> Seq<(K, V)> { nels(**c) }
    #[verifier::prophetic]
    spec fn ksame(c: &'a Arc<Node<K, V, N>>) -> bool { true }
}
// the children of a sound node may be opened
proof fn lemma_okid<K, V, const N: usize>(n: Node<K, V, N>)
    requires okid(n),
    ensures
        n.elems.len() > 0, fan(n),
        forall|i: int| 0 <= i < n.kids.len() ==> okid(#[trigger] kd(n, i)) && kd(n, i).elems.len() >= N && nh(kd(n, i)) < nh(n),
        nels(n) == alt(n.kids.len() > 0, ksq(n.kids@), n.elems@),
{
    shp_unfold(n, 1);
    node(n);
    lemma_alt_il(ksq(n.kids@), n.elems@);
    assert forall|i: int| 0 <= i < n.kids.len() implies okid(#[trigger] kd(n, i)) && kd(n, i).elems.len() >= N && nh(kd(n, i)) < nh(n) by {
        shp_unfold(kd(n, i), N as int);
        shp_unfold(kd(n, i), 1);
    }
}
#raw
proof fn lemma_make<'a, K, V, const N: usize>(a: &'a Arc<Node<K, V, N>>, it: InnerNodeIter<'a, K, V, N>)
    requires
        okid(an(*a)), it.lf() == (an(*a).kids.len() > 0), it.rt() == it.lf(),
        it.es().len() == an(*a).elems.len(), forall|i: int| 0 <= i < it.es().len() ==> *(#[trigger] it.es()[i]) == an(*a).elems@[i],
        it.ks().len() == an(*a).kids.len(), forall|i: int| 0 <= i < it.ks().len() ==> *(#[trigger] it.ks()[i]) == an(*a).kids@[i],
    ensures fresh(it, a),
{
    let n = an(*a);
    lemma_okid(n);
    assert(kvs::<InnerNodeIter<'a, K, V, N>>(it.ks()) =~= ksq(n.kids@));
    assert(evs::<InnerNodeIter<'a, K, V, N>>(it.es()) =~= n.elems@);
    assert(fkvs::<InnerNodeIter<'a, K, V, N>>(it.ks()) =~= ksq(n.kids@));
    assert(fevs::<InnerNodeIter<'a, K, V, N>>(it.es()) =~= n.elems@);
    assert forall|i: int| 0 <= i < it.ks().len() implies
        InnerNodeIter::<'a, K, V, N>::kok(#[trigger] it.ks()[i]) && InnerNodeIter::<'a, K, V, N>::kh(it.ks()[i]) < InnerNodeIter::<'a, K, V, N>::kh(a) by {
        assert(*it.ks()[i] == n.kids@[i]);
        assert(okid(kd(n, i)) && nh(kd(n, i)) < nh(n));
    }
}
#fn make_node_iter -> r
    ensures okid(an(*n)) ==> fresh(r, n),
@begin
    let ghost a = n;
@tail
    proof { if okid(an(*a)) { lemma_make(a, __r); } }
#raw
// an iterator over exactly these entries, of which `len` is the number
#[verifier::prophetic]
spec fn over<I: NodeIter>(i: InnerIter<I>, s: Seq<I::E>) -> bool {
    good(i.work@) && flat(i.work@) == s && i.len == s.len() && makes(i.make_node_iter)
}
proof fn lemma_one_node<I: NodeIter>(w: Seq<I>)
    ensures
        w.len() == 0 ==> good(w) && same(w) && flat(w) == Seq::<I::E>::empty() && fflat(w) == Seq::<I::E>::empty(),
        w.len() == 1 ==> good(w) == igood(w[0]) && same(w) == isame(w[0]) && flat(w) == rem(w[0]) && fflat(w) == frem(w[0]),
{
    lemma_ends(w);
    if w.len() == 1 {
        lemma_ends(w.drop_last());
        lemma_empty_add(rem(w[0]));
        lemma_empty_add(frem(w[0]));
    }
}
// `r` is the entry `e`
spec fn pair_of<'a, K, V>(r: Option<(&'a K, &'a V)>) -> (K, V) { (*(r->0).0, *(r->0).1) }
#fn Iterator@Iter::next -> r
    requires ready(old(self).iter), makes(old(self).iter.make_node_iter),
    ensures
        final(self).iter.make_node_iter == old(self).iter.make_node_iter,
        stepped(old(self).iter, final(self).iter, r is Some, pair_of(r), pair_of(r), true, true),
@sub \b(self\.iter\.next\w*\(\))\.map\(\|\((ref [^|]*)\)\|\s*([^;{}]*)\)(?=\s*\}\s*$) => match \1 { Some((\2)) => Some(\3), None => None }
#fn DoubleEndedIterator@Iter::next_back -> r
    requires ready(old(self).iter), makes(old(self).iter.make_node_iter),
    ensures
        final(self).iter.make_node_iter == old(self).iter.make_node_iter,
        stepped(old(self).iter, final(self).iter, r is Some, pair_of(r), pair_of(r), true, false),
@sub \b(self\.iter\.next\w*\(\))\.map\(\|\((ref [^|]*)\)\|\s*([^;{}]*)\)(?=\s*\}\s*$) => match \1 { Some((\2)) => Some(\3), None => None }
#fn Iterator@Iter::size_hint -> r
    ensures r.0 == self.iter.len, r.1 == Some(self.iter.len),
#fn ExactSizeIterator@Iter::len -> r
    ensures r == self.iter.len,
#fn BTreeMap::iter -> r +where=K:Ord
    requires mwf(*self),
    ensures over(r.iter, mels(*self)),
@tail
    proof { lemma_one_node(__r.iter.work@); }
#include keys.inc
#raw
// b has the keys and the shape of a
spec fn alike<K, V, const N: usize>(a: Node<K, V, N>, b: Node<K, V, N>) -> bool {
    &&& nh(a) == nh(b)
    &&& shp(a, 1) ==> shp(b, 1)
    &&& shp(a, N as int) ==> shp(b, N as int)
    &&& keys_of(nels(a)) == keys_of(nels(b))
}
proof fn lemma_keys_plus<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    ensures keys_of(a + b) == keys_of(a) + keys_of(b),
{
    assert(keys_of(a + b) =~= keys_of(a) + keys_of(b));
}
proof fn lemma_keys_suf<K, V>(ka: Seq<Seq<(K, V)>>, a: Seq<(K, V)>, kb: Seq<Seq<(K, V)>>, b: Seq<(K, V)>, i: int)
    requires
        a.len() == b.len(), ka.len() == kb.len(), 0 <= i,
        forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).0 == b[j].0,
        forall|j: int| 0 <= j < ka.len() ==> keys_of(#[trigger] ka[j]) == keys_of(kb[j]),
    ensures keys_of(suf(ka, a, i)) == keys_of(suf(kb, b, i)), keys_of(kat(ka, i)) == keys_of(kat(kb, i)),
    decreases a.len() - i
{
    if i < a.len() {
        lemma_keys_suf(ka, a, kb, b, i + 1);
        lemma_keys_plus(seq![a[i]] + kat(ka, i + 1), suf(ka, a, i + 1));
        lemma_keys_plus(seq![b[i]] + kat(kb, i + 1), suf(kb, b, i + 1));
        lemma_keys_plus(seq![a[i]], kat(ka, i + 1));
        lemma_keys_plus(seq![b[i]], kat(kb, i + 1));
        assert(keys_of(seq![a[i]]) =~= keys_of(seq![b[i]]));
    }
}
proof fn lemma_alike<K, V, const N: usize>(a: Node<K, V, N>, b: Node<K, V, N>)
    requires
        a.elems.len() == b.elems.len(), a.kids.len() == b.kids.len(),
        forall|j: int| 0 <= j < a.elems.len() ==> (#[trigger] a.elems@[j]).0 == b.elems@[j].0,
        forall|j: int| 0 <= j < a.kids.len() ==> alike(#[trigger] kd(a, j), kd(b, j)),
    ensures alike(a, b),
{
    node(a); node(b);
    let (ka, kb) = (ksq(a.kids@), ksq(b.kids@));
    assert forall|j: int| 0 <= j < ka.len() implies keys_of(#[trigger] ka[j]) == keys_of(kb[j]) by {
        assert(alike(kd(a, j), kd(b, j)));
    }
    lemma_keys_suf(ka, a.elems@, kb, b.elems@, 0);
    lemma_keys_plus(kat(ka, 0), suf(ka, a.elems@, 0));
    lemma_keys_plus(kat(kb, 0), suf(kb, b.elems@, 0));
    if a.kids.len() > 0 { assert(alike(kd(a, 0), kd(b, 0))); }
    shp_unfold(a, 1); shp_unfold(b, 1);
    shp_unfold(a, N as int); shp_unfold(b, N as int);
    assert forall|i: int| 0 <= i < b.kids.len() && (shp(a, 1) || shp(a, N as int)) implies
        shp(#[trigger] kd(b, i), N as int) && nh(kd(b, i)) + 1 == nh(b) by {
        assert(alike(kd(a, i), kd(b, i)));
    }
}
#item struct IterMut +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V) +attr=verifier::reject_recursive_types(N)
#item type NodeIterMut
#raw
impl<'a, K, V> VElems for VSliceIterMut<'a, (K, V)> {
    type E = (K, V);
    spec fn ev(x: &'a mut (K, V)) -> (K, V) { *x }
    #[verifier::prophetic]
    spec fn fev(x: &'a mut (K, V)) -> (K, V) { *final(x) }
    #[verifier::prophetic]
    spec fn esame(x: &'a mut (K, V)) -> bool { (*x).0 == (*final(x)).0 }
}
impl<'a, K, V, const N: usize> VKids for VSliceIterMut<'a, Arc<Node<K, V, N>>> {
    type E = (K, V);
    spec fn kok(c: &'a mut Arc<Node<K, V, N>>) -> bool { okid(**c) && (**c).elems.len() >= N }
    spec fn kh(c: &'a mut Arc<Node<K, V, N>>) -> nat { nh(**c) }
    spec fn kv(c: &'a mut Arc<Node<K, V, N>>) -> Seq<(K, V)> { nels(**c) }
    #[verifier::prophetic]
    spec fn kfv(c: &'a mut Arc<Node<K, V, N>>) -> Seq<(K, V)> { nels(**final(c)) }
    #[verifier::prophetic]
    spec fn ksame(c: &'a mut Arc<Node<K, V, N>>) -> bool { alike(**c, **final(c)) }
}
// the iterator of a node's entries, and what they become
#[verifier::prophetic]
spec fn mut_of<'a, K, V, const N: usize>(it: NodeIterMut<'a, K, V, N>, n: Node<K, V, N>, f: Node<K, V, N>) -> bool {
    &&& it.lf() == (n.kids.len() > 0) && it.rt() == it.lf()
    &&& it.es().len() == n.elems.len() && f.elems.len() == n.elems.len()
    &&& forall|i: int| 0 <= i < it.es().len() ==> *(#[trigger] it.es()[i]) == n.elems@[i] && *final(it.es()[i]) == f.elems@[i]
    &&& it.ks().len() == n.kids.len() && f.kids.len() == n.kids.len()
    &&& forall|i: int| 0 <= i < it.ks().len() ==> *(#[trigger] it.ks()[i]) == n.kids@[i] && *final(it.ks()[i]) == f.kids@[i]
}
proof fn lemma_make_mut<'a, K, V, const N: usize>(c: &'a mut Arc<Node<K, V, N>>, it: NodeIterMut<'a, K, V, N>)
    requires okid(an(*c)), mut_of(it, an(*c), an(*final(c))),
    ensures fresh(it, c),
{
    let n = an(*c);
    let f = an(*final(c));
    lemma_okid(n);
    assert(kvs::<NodeIterMut<'a, K, V, N>>(it.ks()) =~= ksq(n.kids@));
    assert(evs::<NodeIterMut<'a, K, V, N>>(it.es()) =~= n.elems@);
    assert(fkvs::<NodeIterMut<'a, K, V, N>>(it.ks()) =~= ksq(f.kids@));
    assert(fevs::<NodeIterMut<'a, K, V, N>>(it.es()) =~= f.elems@);
    node(f);
    lemma_alt_il(ksq(f.kids@), f.elems@);
    assert forall|i: int| 0 <= i < it.ks().len() implies
        NodeIterMut::<'a, K, V, N>::kok(#[trigger] it.ks()[i]) && NodeIterMut::<'a, K, V, N>::kh(it.ks()[i]) < NodeIterMut::<'a, K, V, N>::kh(c) by {
        assert(*it.ks()[i] == n.kids@[i]);
        assert(okid(kd(n, i)) && nh(kd(n, i)) < nh(n));
    }
    lemma_mut_same(it, n, f);
}
proof fn lemma_mut_same<'a, K, V, const N: usize>(it: NodeIterMut<'a, K, V, N>, n: Node<K, V, N>, f: Node<K, V, N>)
    requires mut_of(it, n, f),
    ensures isame(it) ==> alike(n, f),
{
    assert forall|j: int| 0 <= j < n.elems.len() && isame(it) implies (#[trigger] n.elems@[j]).0 == f.elems@[j].0 by {
        assert(NodeIterMut::<'a, K, V, N>::esame(it.es()[j]));
    }
    assert forall|j: int| 0 <= j < n.kids.len() && isame(it) implies alike(#[trigger] kd(n, j), kd(f, j)) by {
        assert(NodeIterMut::<'a, K, V, N>::ksame(it.ks()[j]));
    }
    lemma_alike_if(n, f, isame(it));
}
proof fn lemma_alike_if<K, V, const N: usize>(a: Node<K, V, N>, b: Node<K, V, N>, c: bool)
    requires
        a.elems.len() == b.elems.len(), a.kids.len() == b.kids.len(),
        c ==> forall|j: int| 0 <= j < a.elems.len() ==> (#[trigger] a.elems@[j]).0 == b.elems@[j].0,
        c ==> forall|j: int| 0 <= j < a.kids.len() ==> alike(#[trigger] kd(a, j), kd(b, j)),
    ensures c ==> alike(a, b),
{
    if c { lemma_alike(a, b); }
}
#fn make_node_iter_mut -> r
    ensures okid(an(*old(n))) ==> fresh(r, n),
@begin
    let ghost a = n;
@tail
    proof { if okid(an(*a)) { lemma_make_mut(a, __r); } }
#raw
#[verifier::prophetic]
spec fn fpair_of<'a, K, V>(r: Option<(&'a K, &'a mut V)>) -> (K, V) { (*(r->0).0, *final((r->0).1)) }
spec fn mpair_of<'a, K, V>(r: Option<(&'a K, &'a mut V)>) -> (K, V) { (*(r->0).0, *(r->0).1) }
#fn Iterator@IterMut::next -> r
    requires ready(old(self).iter), makes(old(self).iter.make_node_iter),
    ensures
        final(self).iter.make_node_iter == old(self).iter.make_node_iter,
        stepped(old(self).iter, final(self).iter, r is Some, mpair_of(r), fpair_of(r), true, true),
@sub \b(self\.iter\.next\w*\(\))\.map\(\|\((ref [^|]*)\)\|\s*([^;{}]*)\)(?=\s*\}\s*$) => match \1 { Some((\2)) => Some(\3), None => None }
#fn DoubleEndedIterator@IterMut::next_back -> r
    requires ready(old(self).iter), makes(old(self).iter.make_node_iter),
    ensures
        final(self).iter.make_node_iter == old(self).iter.make_node_iter,
        stepped(old(self).iter, final(self).iter, r is Some, mpair_of(r), fpair_of(r), true, false),
@sub \b(self\.iter\.next\w*\(\))\.map\(\|\((ref [^|]*)\)\|\s*([^;{}]*)\)(?=\s*\}\s*$) => match \1 { Some((\2)) => Some(\3), None => None }
#fn Iterator@IterMut::size_hint -> r
    ensures r.0 == self.iter.len, r.1 == Some(self.iter.len),
#fn ExactSizeIterator@IterMut::len -> r
    ensures r == self.iter.len,
#raw
// an iterator of references into `o`, which will be `n` when it has ended
#[verifier::prophetic]
spec fn over_mut<'a, K: Ord + Clone, V: Clone, const N: usize>(i: InnerIter<NodeIterMut<'a, K, V, N>>, o: BTreeMap<K, V, N>, n: BTreeMap<K, V, N>) -> bool {
    &&& over(i, mels(o))
    &&& same(i.work@) ==> mwf(n) && n.len == o.len && keys_of(mels(n)) == keys_of(mels(o)) && mels(n) == fflat(i.work@)
}
spec fn ralike<K, V, const N: usize>(a: Option<NodePtr<K, V, N>>, b: Option<NodePtr<K, V, N>>) -> bool {
    match (a, b) { (Some(x), Some(y)) => alike(an(x), an(y)), (None, None) => true, _ => false }
}
proof fn lemma_alike_wf<K: Ord, V, const N: usize>(a: BTreeMap<K, V, N>, b: BTreeMap<K, V, N>)
    requires mwf(a), b.len == a.len,
    ensures ralike(a.root, b.root) ==> mwf(b) && keys_of(mels(b)) == keys_of(mels(a)),
{
    if ralike(a.root, b.root) && keys_of(mels(a)) == keys_of(mels(b)) { lemma_same_keys_sorted(mels(a), mels(b)); }
}
#fn BTreeMap::iter_mut -> r +where=K:Ord
    requires mwf(*old(self)),
    ensures over_mut(r.iter, *old(self), *final(self)),
@begin
    let ghost m = *self;
    let ghost fin = *final(self);
@tail
    proof { lemma_one_node(__r.iter.work@); lemma_alike_wf(m, fin); }
#item struct ArcNodeIntoIter +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V) +attr=verifier::reject_recursive_types(N)
#item struct OwnedNodeIntoIter +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V) +attr=verifier::reject_recursive_types(N)
#item enum IntoNodeIter +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V) +attr=verifier::reject_recursive_types(N)
#item struct IntoIter +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V) +attr=verifier::reject_recursive_types(N)
#raw
// children lb..ub of a node, and the nodes behind pointers
spec fn kseq<K, V, const N: usize>(n: Node<K, V, N>, lb: int, ub: int) -> Seq<Node<K, V, N>> { Seq::new((ub - lb) as nat, |i: int| kd(n, lb + i)) }
spec fn nsq<K, V, const N: usize>(s: Seq<Arc<Node<K, V, N>>>) -> Seq<Node<K, V, N>> { Seq::new(s.len(), |i: int| an(s[i])) }
#fn NodeIter@IntoNodeIter::is_empty +keeptrait +with=needs_lf_des,needs_rt_des,next_elem,next_back_elem,next_kid,next_back_kid
@impl
    type E = (K, V);
    type C = Node<K, V, N>;
    spec fn ok(&self) -> bool {
        match *self {
            IntoNodeIter::Arcked(b) => b.lb_elems <= b.ub_elems <= an(b.n).elems.len() && b.lb_kids <= b.ub_kids <= an(b.n).kids.len(),
            IntoNodeIter::Owned(n) => true,
        }
    }
    spec fn es(&self) -> Seq<(K, V)> {
        match *self {
            IntoNodeIter::Arcked(b) => an(b.n).elems@.subrange(b.lb_elems as int, b.ub_elems as int),
            IntoNodeIter::Owned(n) => n.elems.todo(),
        }
    }
    spec fn ks(&self) -> Seq<Node<K, V, N>> {
        match *self {
            IntoNodeIter::Arcked(b) => kseq(an(b.n), b.lb_kids as int, b.ub_kids as int),
            IntoNodeIter::Owned(n) => nsq(n.kids.todo()),
        }
    }
    spec fn lf(&self) -> bool { match *self { IntoNodeIter::Arcked(b) => b.needs_lf_des, IntoNodeIter::Owned(n) => n.needs_lf_des } }
    spec fn rt(&self) -> bool { match *self { IntoNodeIter::Arcked(b) => b.needs_rt_des, IntoNodeIter::Owned(n) => n.needs_rt_des } }
    spec fn ca(c: Self::ChildItem) -> Node<K, V, N> { match c { Ok(n) => n, Err(a) => an(a) } }
    spec fn ev(x: (K, V)) -> (K, V) { x }
    spec fn kok(c: Node<K, V, N>) -> bool { okid(c) }
    spec fn kh(c: Node<K, V, N>) -> nat { nh(c) }
    spec fn kv(c: Node<K, V, N>) -> Seq<(K, V)> { nels(c) }
    #[verifier::prophetic]
    spec fn fev(x: (K, V)) -> (K, V) { x }
    #[verifier::prophetic]
    spec fn esame(x: (K, V)) -> bool { true }
    #[verifier::prophetic]
    spec fn kfv(c: Node<K, V, N>) -> Seq<(K, V)> { nels(c) }
    #[verifier::prophetic]
    spec fn ksame(c: Node<K, V, N>) -> bool { true }
#raw
proof fn lemma_make_into<K: Clone, V: Clone, const N: usize>(n: Node<K, V, N>, it: IntoNodeIter<K, V, N>)
    requires
        okid(n), it.lf() == (n.kids.len() > 0), it.rt() == it.lf(), it.ok(),
        it.es() == n.elems@, it.ks().len() == n.kids.len(), forall|i: int| 0 <= i < it.ks().len() ==> #[trigger] it.ks()[i] == kd(n, i),
    ensures fresh(it, n),
{
    lemma_okid(n);
    assert(kvs::<IntoNodeIter<K, V, N>>(it.ks()) =~= ksq(n.kids@));
    assert(evs::<IntoNodeIter<K, V, N>>(it.es()) =~= n.elems@);
    assert(fkvs::<IntoNodeIter<K, V, N>>(it.ks()) =~= ksq(n.kids@));
    assert(fevs::<IntoNodeIter<K, V, N>>(it.es()) =~= n.elems@);
}
#fn make_into_node_iter -> r
    ensures okid(IntoNodeIter::<K, V, N>::ca(n)) ==> fresh(r, IntoNodeIter::<K, V, N>::ca(n)),
@begin
    let ghost m = IntoNodeIter::<K, V, N>::ca(n);
@tail
    proof {
        if okid(m) {
            assert(__r.es() =~= m.elems@);
            lemma_make_into(m, __r);
        }
    }
#fn IntoIter::new -> r +where=K:Ord
    requires mwf(m),
    ensures over(r.iter, mels(m)),
@tail
    proof { lemma_one_node(__r.iter.work@); }
#fn Iterator@IntoIter::next -> r
    requires ready(old(self).iter), makes(old(self).iter.make_node_iter),
    ensures nexts(old(self).iter, final(self).iter, r, true),
#fn DoubleEndedIterator@IntoIter::next_back -> r
    requires ready(old(self).iter), makes(old(self).iter.make_node_iter),
    ensures nexts(old(self).iter, final(self).iter, r, false),
#fn Iterator@IntoIter::size_hint -> r
    ensures r.0 == self.iter.len, r.1 == Some(self.iter.len),
#fn ExactSizeIterator@IntoIter::len -> r
    ensures r == self.iter.len,
#fn IntoIterator@BTreeMap::into_iter -> r +where=K:Ord
    requires mwf(self),
    ensures over(r.iter, mels(self)),
#raw
// what `into_iter` yields when it is run to its end
fn drain_map<K: Clone + Ord, V: Clone, const N: usize>(m: BTreeMap<K, V, N>) -> (r: Vec<(K, V)>)
    requires mwf(m),
    ensures r@ == mels(m),
{
    let mut v: Vec<(K, V)> = Vec::new();
    let mut it = m.into_iter();
    proof { assert(v@ + mels(m) =~= mels(m)); }
    loop
        invariant
            ready(it.iter), makes(it.iter.make_node_iter), it.iter.len == flat(it.iter.work@).len(),
            mels(m) == v@ + flat(it.iter.work@),
        ensures mels(m) == v@,
        decreases flat(it.iter.work@).len(),
    {
        let ghost w0 = it.iter.work@;
        let ghost v0 = v@;
        match it.next() {
            Some(x) => {
                v.push(x);
                proof { assert(v0 + (seq![x] + flat(it.iter.work@)) =~= v@ + flat(it.iter.work@)); }
            }
            None => { proof { lemma_ends(it.iter.work@); assert(v@ + flat(w0) =~= v@); } break; }
        }
    }
    v
}
#fn BTreeMap::keys -> r +where=K:Ord
@ret 'q VMapped<Iter<'q, K, V, N>, impl Fn((&'q K, &'q V)) -> &'q K>
    requires mwf(*self),
    ensures over(r.i.iter, mels(*self)), forall|p: (&'q K, &'q V), o: &'q K| r.f.ensures((p,), o) ==> o == p.0,
@sub \.map\( => .vmap_it(
@closure 0 (p: (&'q K, &'q V)) -> (o: &'q K)
    ensures o == p.0,
#fn BTreeMap::values -> r +where=K:Ord
@ret 'q VMapped<Iter<'q, K, V, N>, impl Fn((&'q K, &'q V)) -> &'q V>
    requires mwf(*self),
    ensures over(r.i.iter, mels(*self)), forall|p: (&'q K, &'q V), o: &'q V| r.f.ensures((p,), o) ==> o == p.1,
@sub \.map\( => .vmap_it(
@closure 0 (p: (&'q K, &'q V)) -> (o: &'q V)
    ensures o == p.1,
#fn BTreeMap::values_mut -> r +where=K:Ord
@ret 'q VMapped<IterMut<'q, K, V, N>, impl Fn((&'q K, &'q mut V)) -> &'q mut V>
    requires mwf(*old(self)),
    ensures
        over_mut(r.i.iter, *old(self), *final(self)),
        forall|p: (&'q K, &'q mut V), o: &'q mut V| r.f.ensures((p,), o) ==> *o == *p.1 && *final(o) == *final(p.1),
@sub \.map\( => .vmap_it(
@closure 0 (p: (&'q K, &'q mut V)) -> (o: &'q mut V)
    ensures *o == *old(p.1), *final(o) == *final(p.1),
#fn BTreeMap::into_keys -> r +where=K:Ord
@ret 'q VMapped<IntoIter<K, V, N>, impl Fn((K, V)) -> K>
    requires mwf(self),
    ensures over(r.i.iter, mels(self)), forall|p: (K, V), o: K| r.f.ensures((p,), o) ==> o == p.0,
@sub \.map\( => .vmap_it(
@closure 0 (p: (K, V)) -> (o: K)
    ensures o == p.0,
#fn BTreeMap::into_values -> r +where=K:Ord
@ret 'q VMapped<IntoIter<K, V, N>, impl Fn((K, V)) -> V>
    requires mwf(self),
    ensures over(r.i.iter, mels(self)), forall|p: (K, V), o: V| r.f.ensures((p,), o) ==> o == p.1,
@sub \.map\( => .vmap_it(
@closure 0 (p: (K, V)) -> (o: V)
    ensures o == p.1,
