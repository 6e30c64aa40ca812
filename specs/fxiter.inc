#include niter.inc
#raw
trait VSlIt<T> {
    fn viter<'a>(&'a self) -> (r: VSliceIter<'a, T>);
    fn viter_mut<'a>(&'a mut self) -> (r: VSliceIterMut<'a, T>);
}
impl<T> VSlIt<T> for [T] {
    // self.iter()
    #[verifier::external_body]
    fn viter<'a>(&'a self) -> (r: VSliceIter<'a, T>)
        ensures r.todo().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.todo()[i]) == self@[i],
    { VSliceIter { i: self.iter() } }
    // self.iter_mut()
    #[verifier::external_body]
    fn viter_mut<'a>(&'a mut self) -> (r: VSliceIterMut<'a, T>)
        ensures
            r.todo().len() == old(self)@.len(), final(self)@.len() == old(self)@.len(),
            forall|i: int| 0 <= i < old(self)@.len() ==> *(#[trigger] r.todo()[i]) == old(self)@[i] && *final(r.todo()[i]) == final(self)@[i],
    { VSliceIterMut { i: self.iter_mut() } }
}
// [].iter()
#[verifier::external_body]
fn vno_iter<'a, T>() -> (r: VSliceIter<'a, T>)
    ensures r.todo().len() == 0,
{ VSliceIter { i: [].iter() } }
// [].iter_mut()
#[verifier::external_body]
fn vno_iter_mut<'a, T>() -> (r: VSliceIterMut<'a, T>)
    ensures r.todo().len() == 0,
{ VSliceIterMut { i: [].iter_mut() } }
#source src/btree/core.rs
#subst \bArc::make_mut\( => arc_make_mut(
#subst \bArc::try_unwrap\( => arc_try_unwrap(
#subst \.clone\(\) => .vclone()
#subst \bassert!\( => vassert!(
#subst \bassert_eq!\( => vassert_eq!(
#subst \bSliceIter\b => VSliceIter
#subst \bSliceIterMut\b => VSliceIterMut
#subst \b(DoubleEndedIterator|ExactSizeIterator|Iterator)\b => VDe
#subst \[\]\.iter\(\) => vno_iter()
#subst \[\]\.iter_mut\(\) => vno_iter_mut()
#subst \.iter\(\) => .viter()
#subst \.iter_mut\(\) => .viter_mut()
#subst \bfront_mut\(\) => vfront_mut()
#subst \bback_mut\(\) => vback_mut()
#subst \b(\w*kids)\.len\s*(\+?=)\s*([^;=]+); => \1.len\2\3;\1.vals.vunits(\1.len);
#subst \[([^\[\]]+)\]\s*\.assume_init_drop\(\) => .vdrop_at(\1)
#subst \[([^\[\]]+)\]\s*\.assume_init_read\(\) => .vread(\1)
#item enum IterAction
#raw
// what is left of a node: entries, children, and whether a child is next at either end
trait VNodeS: Sized {
    type EI;
    type CI;
    // a child, however it is held
    type C;
    spec fn ok(&self) -> bool;
    spec fn es(&self) -> Seq<Self::EI>;
    spec fn ks(&self) -> Seq<Self::C>;
    spec fn lf(&self) -> bool;
    spec fn rt(&self) -> bool;
    spec fn ca(c: Self::CI) -> Self::C;
    fn next(&mut self) -> (r: Option<IterAction<Self::EI, Self::CI>>)
        requires old(self).ok(),
        ensures
            final(self).ok(),
            match r {
                Some(IterAction::Return(x)) => {
                    &&& !old(self).lf() || old(self).ks().len() == 0
                    &&& old(self).es().len() > 0 && x == old(self).es()[0]
                    &&& final(self).es() =~= old(self).es().skip(1) && final(self).ks() =~= old(self).ks()
                    &&& final(self).ks().len() > 0 ==> final(self).lf() && final(self).rt() == old(self).rt()
                }
                Some(IterAction::Descend(c)) => {
                    &&& old(self).lf() && old(self).ks().len() > 0
                    &&& Self::ca(c) == old(self).ks()[0]
                    &&& final(self).es() =~= old(self).es() && final(self).ks() =~= old(self).ks().skip(1)
                    &&& final(self).ks().len() > 0 ==> !final(self).lf() && final(self).rt() == old(self).rt()
                }
                None => old(self).es().len() == 0 && old(self).ks().len() == 0,
            };
    fn next_back(&mut self) -> (r: Option<IterAction<Self::EI, Self::CI>>)
        requires old(self).ok(),
        ensures
            final(self).ok(),
            match r {
                Some(IterAction::Return(x)) => {
                    &&& !old(self).rt() || old(self).ks().len() == 0
                    &&& old(self).es().len() > 0 && x == old(self).es().last()
                    &&& final(self).es() =~= old(self).es().drop_last() && final(self).ks() =~= old(self).ks()
                    &&& final(self).ks().len() > 0 ==> final(self).rt() && final(self).lf() == old(self).lf()
                }
                Some(IterAction::Descend(c)) => {
                    &&& old(self).rt() && old(self).ks().len() > 0
                    &&& Self::ca(c) == old(self).ks().last()
                    &&& final(self).es() =~= old(self).es() && final(self).ks() =~= old(self).ks().drop_last()
                    &&& final(self).ks().len() > 0 ==> !final(self).rt() && final(self).lf() == old(self).lf()
                }
                None => old(self).es().len() == 0 && old(self).ks().len() == 0,
            };
}
// what its entries and children stand for
trait VNodeG: VNodeS {
    type D;
    spec fn ev(x: Self::EI) -> Self::D;
    spec fn kok(c: Self::C) -> bool;
    spec fn kh(c: Self::C) -> nat;
    spec fn kv(c: Self::C) -> Seq<Self::D>;
    // the same when the borrows have ended
    #[verifier::prophetic]
    spec fn fev(x: Self::EI) -> Self::D;
    #[verifier::prophetic]
    spec fn esame(x: Self::EI) -> bool;
    #[verifier::prophetic]
    spec fn kfv(c: Self::C) -> Seq<Self::D>;
    #[verifier::prophetic]
    spec fn ksame(c: Self::C) -> bool;
}
// ---------------------------------------------------------------------------
// What is left of a node: children and entries taken in turn, a child first
// when `l` says so.
// ---------------------------------------------------------------------------
spec fn alt<E>(l: bool, ks: Seq<Seq<E>>, es: Seq<E>) -> Seq<E>
    decreases ks.len() + es.len()
{
    if l && ks.len() > 0 { ks[0] + alt(false, ks.skip(1), es) }
    else if es.len() > 0 { seq![es[0]] + alt(ks.len() > 0, ks, es.skip(1)) }
    else { Seq::empty() }
}
spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
// as many children as the flags ask for
spec fn bal(l: bool, r: bool, k: int, e: int) -> bool { k == 0 || k - e == b2i(l) + b2i(r) - 1 }
proof fn lemma_alt_leaf<E>(l: bool, ks: Seq<Seq<E>>, es: Seq<E>)
    requires ks.len() == 0,
    ensures alt(l, ks, es) == es,
    decreases es.len()
{
    if es.len() > 0 {
        lemma_alt_leaf(false, ks, es.skip(1));
        assert(alt(l, ks, es) =~= es);
    } else {
        assert(alt(l, ks, es) =~= es);
    }
}
proof fn lemma_alt_back<E>(l: bool, r: bool, ks: Seq<Seq<E>>, es: Seq<E>)
    requires bal(l, r, ks.len() as int, es.len() as int),
    ensures
        r && ks.len() > 0 ==> alt(l, ks, es) == alt(l, ks.drop_last(), es) + ks.last(),
        !(r && ks.len() > 0) && es.len() > 0 ==> alt(l, ks, es) == alt(l, ks, es.drop_last()) + seq![es.last()],
    decreases ks.len() + es.len()
{
    if ks.len() == 0 {
        lemma_alt_leaf(l, ks, es);
        if es.len() > 0 {
            lemma_alt_leaf(l, ks, es.drop_last());
            assert(es =~= es.drop_last() + seq![es.last()]);
        }
    } else if l {
        let k1 = ks.skip(1);
        lemma_alt_back(false, r, k1, es);
        if r {
            if ks.len() == 1 {
                lemma_alt_leaf(false, k1, es);
                lemma_alt_leaf(l, ks.drop_last(), es);
                assert(es =~= Seq::<E>::empty());
                assert(alt(l, ks, es) =~= alt(l, ks.drop_last(), es) + ks.last());
            } else {
                assert(k1.drop_last() =~= ks.drop_last().skip(1));
                assert(alt(l, ks, es) =~= alt(l, ks.drop_last(), es) + ks.last());
            }
        } else {
            if k1.len() == 0 { lemma_alt_back(false, false, k1, es); }
            assert(alt(l, ks, es) =~= alt(l, ks, es.drop_last()) + seq![es.last()]);
        }
    } else if es.len() > 0 {
        let e1 = es.skip(1);
        lemma_alt_back(true, r, ks, e1);
        if r {
            if ks.len() == 1 {
                lemma_alt_leaf(true, ks.drop_last(), e1);
                lemma_alt_leaf(false, ks.drop_last(), e1);
            }
            assert(alt(l, ks, es) =~= alt(l, ks.drop_last(), es) + ks.last());
        } else {
            assert(es.len() > 1);
            assert(e1.drop_last() =~= es.drop_last().skip(1));
            assert(alt(l, ks, es) =~= alt(l, ks, es.drop_last()) + seq![es.last()]);
        }
    }
}
// a whole node
proof fn lemma_alt_suf<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int)
    requires ks.len() == es.len() + 1, 0 <= i <= es.len(),
    ensures alt(true, ks.skip(i), es.skip(i)) == kat(ks, i) + suf(ks, es, i),
    decreases es.len() - i
{
    let k = ks.skip(i);
    let e = es.skip(i);
    let k1 = k.skip(1);
    assert(alt(true, k, e) == ks[i] + alt(false, k1, e));
    if i == es.len() {
        lemma_alt_leaf(false, k1, e);
        assert(alt(true, k, e) =~= kat(ks, i) + suf(ks, es, i));
    } else {
        lemma_alt_suf(ks, es, i + 1);
        assert(k1 =~= ks.skip(i + 1));
        assert(e.skip(1) =~= es.skip(i + 1));
        assert(alt(true, k, e) =~= kat(ks, i) + suf(ks, es, i));
    }
}
proof fn lemma_alt_il<E>(ks: Seq<Seq<E>>, es: Seq<E>)
    requires ks.len() == 0 || ks.len() == es.len() + 1,
    ensures alt(ks.len() > 0, ks, es) == il(ks, es),
{
    if ks.len() == 0 {
        lemma_alt_leaf(false, ks, es);
        lemma_il_leaf(es);
        assert(ks =~= Seq::<Seq<E>>::empty());
    } else {
        lemma_alt_suf(ks, es, 0);
        assert(ks.skip(0) =~= ks);
        assert(es.skip(0) =~= es);
    }
}
spec fn kvs<I: VNodeG>(s: Seq<I::C>) -> Seq<Seq<I::D>> { Seq::new(s.len(), |i: int| I::kv(s[i])) }
spec fn evs<I: VNodeG>(s: Seq<I::EI>) -> Seq<I::D> { Seq::new(s.len(), |i: int| I::ev(s[i])) }
#[verifier::prophetic]
spec fn fkvs<I: VNodeG>(s: Seq<I::C>) -> Seq<Seq<I::D>> { Seq::new(s.len(), |i: int| I::kfv(s[i])) }
#[verifier::prophetic]
spec fn fevs<I: VNodeG>(s: Seq<I::EI>) -> Seq<I::D> { Seq::new(s.len(), |i: int| I::fev(s[i])) }
#[verifier::prophetic]
spec fn isame<I: VNodeG>(it: I) -> bool {
    (forall|i: int| 0 <= i < it.ks().len() ==> I::ksame(#[trigger] it.ks()[i])) && (forall|i: int| 0 <= i < it.es().len() ==> I::esame(#[trigger] it.es()[i]))
}
// what is left of a node: now, and when the borrows have ended
spec fn rem<I: VNodeG>(it: I) -> Seq<I::D> { alt(it.lf(), kvs::<I>(it.ks()), evs::<I>(it.es())) }
#[verifier::prophetic]
spec fn frem<I: VNodeG>(it: I) -> Seq<I::D> { alt(it.lf(), fkvs::<I>(it.ks()), fevs::<I>(it.es())) }
// a node in the work list; it may be exhausted
spec fn sound<I: VNodeG>(it: I) -> bool {
    &&& it.ok()
    &&& bal(it.lf(), it.rt(), it.ks().len() as int, it.es().len() as int)
    &&& forall|i: int| 0 <= i < it.ks().len() ==> I::kok(#[trigger] it.ks()[i])
}
// a node just opened
#[verifier::prophetic]
spec fn fresh<I: VNodeG>(it: I, c: I::C) -> bool {
    &&& sound(it)
    &&& it.es().len() > 0
    &&& it.lf() == (it.ks().len() > 0) && it.rt() == it.lf()
    &&& forall|i: int| 0 <= i < it.ks().len() ==> I::kh(#[trigger] it.ks()[i]) < I::kh(c)
    &&& rem(it) == I::kv(c)
    &&& isame(it) ==> I::ksame(c) && frem(it) == I::kfv(c)
}
spec fn flat<I: VNodeG>(w: Seq<I>) -> Seq<I::D>
    decreases w.len()
{
    if w.len() == 0 { Seq::empty() } else { flat(w.drop_last()) + rem(w.last()) }
}
#[verifier::prophetic]
spec fn fflat<I: VNodeG>(w: Seq<I>) -> Seq<I::D>
    decreases w.len()
{
    if w.len() == 0 { Seq::empty() } else { fflat(w.drop_last()) + frem(w.last()) }
}
#[verifier::prophetic]
spec fn same<I: VNodeG>(w: Seq<I>) -> bool
    decreases w.len()
{
    if w.len() == 0 { true } else { same(w.drop_last()) && isame(w.last()) }
}
spec fn good<I: VNodeG>(w: Seq<I>) -> bool
    decreases w.len()
{
    if w.len() == 0 { true } else { good(w.drop_last()) && sound(w.last()) }
}
#[verifier::prophetic]
spec fn steps_to<I: VNodeG>(a: I, w: Seq<I>, s: Seq<I>, front: bool) -> bool {
    &&& good(s) == (good(w) && sound(a))
    &&& same(s) == (same(w) && isame(a))
    &&& flat(s) == (if front { rem(a) + flat(w) } else { flat(w) + rem(a) })
    &&& fflat(s) == (if front { frem(a) + fflat(w) } else { fflat(w) + frem(a) })
}
proof fn lemma_push<I: VNodeG>(w: Seq<I>, a: I)
    ensures steps_to(a, w, w.push(a), false),
{
    assert(w.push(a).drop_last() =~= w);
}
proof fn lemma_front<I: VNodeG>(w: Seq<I>, a: I)
    ensures steps_to(a, w, seq![a] + w, true),
    decreases w.len()
{
    let s = seq![a] + w;
    if w.len() == 0 {
        assert(s =~= Seq::empty().push(a));
        lemma_push(Seq::empty(), a);
        assert(flat(s) =~= rem(a) + flat(w));
        assert(fflat(s) =~= frem(a) + fflat(w));
    } else {
        lemma_front(w.drop_last(), a);
        assert(s.drop_last() =~= seq![a] + w.drop_last());
        assert(flat(s) =~= rem(a) + flat(w));
        assert(fflat(s) =~= frem(a) + fflat(w));
    }
}
proof fn lemma_ends<I: VNodeG>(w: Seq<I>)
    ensures
        w.len() > 0 ==> steps_to(w[0], w.skip(1), w, true),
        w.len() > 0 ==> steps_to(w.last(), w.drop_last(), w, false),
        w.len() == 0 ==> flat(w) == Seq::<I::D>::empty() && fflat(w) == Seq::<I::D>::empty() && same(w) && good(w),
{
    if w.len() > 0 {
        assert(w =~= seq![w[0]] + w.skip(1));
        lemma_front(w.skip(1), w[0]);
        assert(w =~= w.drop_last().push(w.last()));
        lemma_push(w.drop_last(), w.last());
    }
}
proof fn lemma_assoc<E>(a: Seq<E>, b: Seq<E>, c: Seq<E>)
    ensures (a + b) + c == a + (b + c),
{
    assert((a + b) + c =~= a + (b + c));
}
proof fn lemma_empty_add<E>(a: Seq<E>)
    ensures a + Seq::<E>::empty() == a, Seq::<E>::empty() + a == a,
{
    assert(a + Seq::<E>::empty() =~= a);
    assert(Seq::<E>::empty() + a =~= a);
}
spec fn no_kids<I: VNodeG>(it: I) -> bool { it.ks().len() == 0 }
// the flag of a node without children does not matter
proof fn lemma_flag<I: VNodeG>(a: I, l: bool)
    requires no_kids(a) || l == a.lf(),
    ensures
        alt(l, kvs::<I>(a.ks()), evs::<I>(a.es())) == rem(a),
        alt(l, fkvs::<I>(a.ks()), fevs::<I>(a.es())) == frem(a),
{
    if no_kids(a) {
        lemma_alt_leaf(a.lf(), kvs::<I>(a.ks()), evs::<I>(a.es()));
        lemma_alt_leaf(l, kvs::<I>(a.ks()), evs::<I>(a.es()));
        lemma_alt_leaf(a.lf(), fkvs::<I>(a.ks()), fevs::<I>(a.es()));
        lemma_alt_leaf(l, fkvs::<I>(a.ks()), fevs::<I>(a.es()));
    }
}
// a gives up its first (last) child c and becomes b
spec fn gave_kid<I: VNodeG>(a: I, b: I, c: I::C, front: bool) -> bool {
    &&& a.ks().len() > 0 && b.ok() && b.es() == a.es()
    &&& front ==> a.lf() && b.ks() == a.ks().skip(1) && c == a.ks()[0] && (b.ks().len() > 0 ==> !b.lf() && b.rt() == a.rt())
    &&& !front ==> a.rt() && b.ks() == a.ks().drop_last() && c == a.ks().last() && (b.ks().len() > 0 ==> !b.rt() && b.lf() == a.lf())
}
proof fn lemma_kid<I: VNodeG>(a: I, b: I, c: I::C, front: bool)
    requires sound(a), gave_kid(a, b, c, front),
    ensures
        sound(b),
        rem(a) == (if front { I::kv(c) + rem(b) } else { rem(b) + I::kv(c) }),
        isame(b) && I::ksame(c) ==> isame(a),
        frem(a) == (if front { I::kfv(c) + frem(b) } else { frem(b) + I::kfv(c) }),
        I::kok(c),
{
    lemma_alt_back(a.lf(), a.rt(), kvs::<I>(a.ks()), evs::<I>(a.es()));
    lemma_alt_back(a.lf(), a.rt(), fkvs::<I>(a.ks()), fevs::<I>(a.es()));
    if front {
        assert(kvs::<I>(b.ks()) =~= kvs::<I>(a.ks()).skip(1));
        assert(fkvs::<I>(b.ks()) =~= fkvs::<I>(a.ks()).skip(1));
        assert(forall|i: int| 0 <= i < b.ks().len() ==> #[trigger] b.ks()[i] == a.ks()[i + 1]);
        assert(forall|i: int| 0 <= i < a.ks().len() ==> #[trigger] a.ks()[i] == (if i == 0 { c } else { b.ks()[i - 1] }));
        lemma_flag(b, false);
    } else {
        assert(kvs::<I>(b.ks()) =~= kvs::<I>(a.ks()).drop_last());
        assert(fkvs::<I>(b.ks()) =~= fkvs::<I>(a.ks()).drop_last());
        assert(forall|i: int| 0 <= i < b.ks().len() ==> #[trigger] b.ks()[i] == a.ks()[i]);
        assert(forall|i: int| 0 <= i < a.ks().len() ==> #[trigger] a.ks()[i] == (if i == b.ks().len() { c } else { b.ks()[i] }));
        lemma_flag(b, a.lf());
    }
}
// a gives up its first (last) entry x and becomes b
spec fn gave_elem<I: VNodeG>(a: I, b: I, x: I::EI, front: bool) -> bool {
    &&& a.es().len() > 0 && b.ok() && b.ks() == a.ks()
    &&& front ==> (!a.lf() || no_kids(a)) && b.es() == a.es().skip(1) && x == a.es()[0] && (b.ks().len() > 0 ==> b.lf() && b.rt() == a.rt())
    &&& !front ==> (!a.rt() || no_kids(a)) && b.es() == a.es().drop_last() && x == a.es().last() && (b.ks().len() > 0 ==> b.rt() && b.lf() == a.lf())
}
proof fn lemma_elem<I: VNodeG>(a: I, b: I, x: I::EI, front: bool)
    requires sound(a), gave_elem(a, b, x, front),
    ensures
        sound(b),
        rem(a) == (if front { seq![I::ev(x)] + rem(b) } else { rem(b) + seq![I::ev(x)] }),
        isame(b) && I::esame(x) ==> isame(a),
        frem(a) == (if front { seq![I::fev(x)] + frem(b) } else { frem(b) + seq![I::fev(x)] }),
{
    lemma_alt_back(a.lf(), a.rt(), kvs::<I>(a.ks()), evs::<I>(a.es()));
    lemma_alt_back(a.lf(), a.rt(), fkvs::<I>(a.ks()), fevs::<I>(a.es()));
    if front {
        assert(evs::<I>(b.es()) =~= evs::<I>(a.es()).skip(1));
        assert(fevs::<I>(b.es()) =~= fevs::<I>(a.es()).skip(1));
        assert(forall|i: int| 0 <= i < b.es().len() ==> #[trigger] b.es()[i] == a.es()[i + 1]);
        assert(forall|i: int| 0 <= i < a.es().len() ==> #[trigger] a.es()[i] == (if i == 0 { x } else { b.es()[i - 1] }));
        lemma_flag(b, b.ks().len() > 0);
    } else {
        assert(evs::<I>(b.es()) =~= evs::<I>(a.es()).drop_last());
        assert(fevs::<I>(b.es()) =~= fevs::<I>(a.es()).drop_last());
        assert(forall|i: int| 0 <= i < b.es().len() ==> #[trigger] b.es()[i] == a.es()[i]);
        assert(forall|i: int| 0 <= i < a.es().len() ==> #[trigger] a.es()[i] == (if i == b.es().len() { x } else { b.es()[i] }));
        lemma_flag(b, a.lf());
    }
}
// the node at the front (back) of the list; the list with it replaced, with a node added, without it
spec fn tip<I: VNodeG>(w: Seq<I>, front: bool) -> I { if front { w[0] } else { w.last() } }
spec fn upd<I: VNodeG>(w: Seq<I>, b: I, front: bool) -> Seq<I> { if front { w.update(0, b) } else { w.update(w.len() - 1, b) } }
spec fn plus<I: VNodeG>(w: Seq<I>, b: I, front: bool) -> Seq<I> { if front { seq![b] + w } else { w.push(b) } }
spec fn less<I: VNodeG>(w: Seq<I>, front: bool) -> Seq<I> { if front { w.skip(1) } else { w.drop_last() } }
proof fn lemma_upd<I: VNodeG>(w: Seq<I>, b: I, front: bool)
    requires w.len() > 0,
    ensures
        steps_to(b, less(w, front), upd(w, b, front), front),
        steps_to(tip(w, front), less(w, front), w, front),
        tip(upd(w, b, front), front) == b,
        less(upd(w, b, front), front) == less(w, front),
{
    let u = upd(w, b, front);
    lemma_ends(w);
    lemma_ends(u);
    assert(less(u, front) =~= less(w, front));
}
// descending: the end node gives up child c, which is opened as n
proof fn lemma_desc<I: VNodeG>(w: Seq<I>, b: I, c: I::C, n: I, front: bool)
    requires w.len() > 0, good(w), fresh(n, c), gave_kid(tip(w, front), b, c, front),
    ensures
        ({
            let v = plus(upd(w, b, front), n, front);
            good(v) && flat(v) == flat(w) && (same(v) ==> same(w) && fflat(v) == fflat(w)) && v.len() > 0 && tip(v, front) == n
        }),
{
    let l = upd(w, b, front);
    lemma_upd(w, b, front);
    lemma_kid(tip(w, front), b, c, front);
    let t = less(w, front);
    if front {
        lemma_front(l, n);
        lemma_assoc(I::kv(c), rem(b), flat(t));
        lemma_assoc(I::kfv(c), frem(b), fflat(t));
    } else {
        lemma_push(l, n);
        lemma_assoc(flat(t), rem(b), I::kv(c));
        lemma_assoc(fflat(t), frem(b), I::kfv(c));
    }
}
// yielding: the end node gives up entry x
proof fn lemma_give<I: VNodeG>(w: Seq<I>, b: I, x: I::EI, front: bool)
    requires w.len() > 0, good(w), gave_elem(tip(w, front), b, x, front),
    ensures
        ({
            let v = upd(w, b, front);
            good(v)
            && flat(w) == (if front { seq![I::ev(x)] + flat(v) } else { flat(v) + seq![I::ev(x)] })
            && (I::esame(x) && same(v) ==> same(w) && fflat(w) == (if front { seq![I::fev(x)] + fflat(v) } else { fflat(v) + seq![I::fev(x)] }))
        }),
{
    lemma_upd(w, b, front);
    lemma_elem(tip(w, front), b, x, front);
    let o = seq![I::ev(x)];
    let fo = seq![I::fev(x)];
    let t = less(w, front);
    if front {
        lemma_assoc(o, rem(b), flat(t));
        lemma_assoc(fo, frem(b), fflat(t));
    } else {
        lemma_assoc(flat(t), rem(b), o);
        lemma_assoc(fflat(t), frem(b), fo);
    }
}
// an exhausted node at the end
proof fn lemma_done<I: VNodeG>(w: Seq<I>, front: bool)
    requires w.len() > 0, good(w), no_kids(tip(w, front)), tip(w, front).es().len() == 0,
    ensures
        good(less(w, front)), flat(less(w, front)) == flat(w),
        same(less(w, front)) ==> same(w) && fflat(less(w, front)) == fflat(w),
{
    let a = tip(w, front);
    lemma_upd(w, a, front);
    lemma_alt_leaf(a.lf(), kvs::<I>(a.ks()), evs::<I>(a.es()));
    lemma_alt_leaf(a.lf(), fkvs::<I>(a.ks()), fevs::<I>(a.es()));
    assert(rem(a) =~= Seq::empty());
    assert(frem(a) =~= Seq::empty());
    lemma_empty_add(flat(less(w, front)));
    lemma_empty_add(fflat(less(w, front)));
}
#prop C14
#trait NodeIterator
@sub VDe<Item = IterAction<E, N>> => VNodeG<EI = E, CI = N>
@method new -> r
    requires Self::kok(Self::ca(n)),
    ensures
        r.ok(), r.es().len() > 0, r.ks().len() > 0 ==> r.ks().len() == r.es().len() + 1,
        r.lf() == (r.ks().len() > 0), r.rt() == r.lf(),
        forall|i: int| 0 <= i < r.ks().len() ==> Self::kok(#[trigger] r.ks()[i]) && Self::kh(r.ks()[i]) < Self::kh(Self::ca(n)),
        alt(r.lf(), Seq::new(r.ks().len(), |i: int| Self::kv(r.ks()[i])), Seq::new(r.es().len(), |i: int| Self::ev(r.es()[i]))) =~= Self::kv(Self::ca(n)),
        (forall|i: int| 0 <= i < r.ks().len() ==> Self::ksame(#[trigger] r.ks()[i])) && (forall|i: int| 0 <= i < r.es().len() ==> Self::esame(#[trigger] r.es()[i]))
            ==> Self::ksame(Self::ca(n))
                && alt(r.lf(), Seq::new(r.ks().len(), |i: int| Self::kfv(r.ks()[i])), Seq::new(r.es().len(), |i: int| Self::fev(r.es()[i]))) =~= Self::kfv(Self::ca(n)),
#raw
// what `new` ensures
#[verifier::prophetic]
spec fn opened<I: VNodeG>(r: I, c: I::C) -> bool {
    &&& r.ok() && r.es().len() > 0 && (r.ks().len() > 0 ==> r.ks().len() == r.es().len() + 1)
    &&& r.lf() == (r.ks().len() > 0) && r.rt() == r.lf()
    &&& forall|i: int| 0 <= i < r.ks().len() ==> I::kok(#[trigger] r.ks()[i]) && I::kh(r.ks()[i]) < I::kh(c)
    &&& alt(r.lf(), Seq::new(r.ks().len(), |i: int| I::kv(r.ks()[i])), Seq::new(r.es().len(), |i: int| I::ev(r.es()[i]))) == I::kv(c)
    &&& isame(r) ==> I::ksame(c) && alt(r.lf(), Seq::new(r.ks().len(), |i: int| I::kfv(r.ks()[i])), Seq::new(r.es().len(), |i: int| I::fev(r.es()[i]))) == I::kfv(c)
}
proof fn lemma_opened<I: VNodeG>(r: I, c: I::C)
    requires opened(r, c),
    ensures fresh(r, c),
{
    assert(kvs::<I>(r.ks()) =~= Seq::new(r.ks().len(), |i: int| I::kv(r.ks()[i])));
    assert(evs::<I>(r.es()) =~= Seq::new(r.es().len(), |i: int| I::ev(r.es()[i])));
    assert(fkvs::<I>(r.ks()) =~= Seq::new(r.ks().len(), |i: int| I::kfv(r.ks()[i])));
    assert(fevs::<I>(r.es()) =~= Seq::new(r.es().len(), |i: int| I::fev(r.es()[i])));
}
proof fn lemma_one_node<I: VNodeG>(w: Seq<I>)
    ensures
        w.len() == 0 ==> good(w) && same(w) && flat(w) == Seq::<I::D>::empty() && fflat(w) == Seq::<I::D>::empty(),
        w.len() == 1 ==> good(w) == sound(w[0]) && same(w) == isame(w[0]) && flat(w) == rem(w[0]) && fflat(w) == frem(w[0]),
{
    lemma_ends(w);
    if w.len() == 1 {
        lemma_ends(w.drop_last());
        lemma_empty_add(rem(w[0]));
        lemma_empty_add(frem(w[0]));
    }
}
#item struct InnerIter +attr=verifier::reject_recursive_types(E) +attr=verifier::reject_recursive_types(N) +attr=verifier::reject_recursive_types(NI)
#raw
spec fn ready<E, N, NI: NodeIterator<E, N>>(i: InnerIter<E, N, NI>) -> bool { good(i.work@) && flat(i.work@).len() <= i.len }
// one step: what came out, and what is left
#[verifier::prophetic]
spec fn stepped<E, N, NI: NodeIterator<E, N>>(o: InnerIter<E, N, NI>, n: InnerIter<E, N, NI>, r: Option<E>, front: bool) -> bool {
    match r {
        None => flat(o.work@).len() == 0 && n.work@.len() == 0 && n.len == o.len && good(n.work@)
            && same(o.work@) && fflat(o.work@).len() == 0,
        Some(x) => {
            &&& flat(o.work@) == (if front { seq![NI::ev(x)] + flat(n.work@) } else { flat(n.work@) + seq![NI::ev(x)] })
            &&& n.len == o.len - 1
            &&& good(n.work@)
            &&& NI::esame(x) && same(n.work@) ==> same(o.work@)
                && fflat(o.work@) == (if front { seq![NI::fev(x)] + fflat(n.work@) } else { fflat(n.work@) + seq![NI::fev(x)] })
        }
    }
}
// how far the descent still goes
spec fn deep<I: VNodeG>(a: I, front: bool) -> nat {
    if a.ks().len() == 0 { 0 }
    else if front { if a.lf() { 1 + I::kh(a.ks()[0]) } else { 0 } }
    else { if a.rt() { 1 + I::kh(a.ks().last()) } else { 0 } }
}
#fn InnerIter::new -> r
    requires root is Some ==> NI::kok(NI::ca(root->0)),
    ensures
        r.len == len, good(r.work@),
        root is None ==> r.work@.len() == 0,
        root is Some ==> r.work@.len() == 1 && fresh(r.work@[0], NI::ca(root->0)),
@tail
    proof {
        lemma_one_node(__r.work@);
        if root is Some { lemma_opened(__r.work@[0], NI::ca(root->0)); }
    }
#fn Iterator@InnerIter::next -> r
    requires ready(*old(self)),
    ensures stepped(*old(self), *final(self), r, true),
@begin
    let ghost w0 = self.work@;
    let ghost mut cur = self.work@;
    let ghost mut down = false;
    proof { lemma_ends(w0); }
@loop 0
    invariant
        cur == self.work@, self.len == old(self).len, w0 == old(self).work@, flat(w0).len() <= old(self).len,
        good(cur), flat(cur) == flat(w0), same(cur) ==> same(w0) && fflat(cur) == fflat(w0),
        down ==> cur.len() > 0 && tip(cur, true).es().len() > 0,
    ensures self.work@.len() == 0,
    decreases (if down { 0int } else { 1 }), (if down { deep(tip(cur, true), true) } else { cur.len() }),
@body 0
    let ghost c0 = cur;
    proof { lemma_ends(c0); }
@before ?self\.len -= 1;
    let ghost b = *w;
    proof {
        lemma_give(c0, b, tip(c0, true).es()[0], true);
        assert(self.work@ =~= upd(c0, b, true));
    }
@bodyend 0
    proof {
        let v = self.work@;
        if v.len() > c0.len() {
            let b = v[1];
            let n = tip(v, true);
            let c = tip(c0, true).ks()[0];
            assert(v =~= plus(upd(c0, b, true), n, true));
            lemma_opened(n, c);
            lemma_desc(c0, b, c, n, true);
            down = true;
        } else {
            assert(v =~= less(c0, true));
            lemma_done(c0, true);
        }
        cur = v;
    }
@past 0
    proof { lemma_ends(self.work@); }
#fn DoubleEndedIterator@InnerIter::next_back -> r
    requires ready(*old(self)),
    ensures stepped(*old(self), *final(self), r, false),
@begin
    let ghost w0 = self.work@;
    let ghost mut cur = self.work@;
    let ghost mut down = false;
    proof { lemma_ends(w0); }
@loop 0
    invariant
        cur == self.work@, self.len == old(self).len, w0 == old(self).work@, flat(w0).len() <= old(self).len,
        good(cur), flat(cur) == flat(w0), same(cur) ==> same(w0) && fflat(cur) == fflat(w0),
        down ==> cur.len() > 0 && tip(cur, false).es().len() > 0,
    ensures self.work@.len() == 0,
    decreases (if down { 0int } else { 1 }), (if down { deep(tip(cur, false), false) } else { cur.len() }),
@body 0
    let ghost c0 = cur;
    proof { lemma_ends(c0); }
@before ?self\.len -= 1;
    let ghost b = *w;
    proof {
        lemma_give(c0, b, tip(c0, false).es().last(), false);
        assert(self.work@ =~= upd(c0, b, false));
    }
@bodyend 0
    proof {
        let v = self.work@;
        if v.len() > c0.len() {
            let b = v[v.len() - 2];
            let n = tip(v, false);
            let c = tip(c0, false).ks().last();
            assert(v =~= plus(upd(c0, b, false), n, false));
            lemma_opened(n, c);
            lemma_desc(c0, b, c, n, false);
            down = true;
        } else {
            assert(v =~= less(c0, false));
            lemma_done(c0, false);
        }
        cur = v;
    }
@past 0
    proof { lemma_ends(self.work@); }
#fn Iterator@InnerIter::size_hint -> r
    ensures r.0 == self.len, r.1 == Some(self.len),
#fn ExactSizeIterator@InnerIter::len -> r
    ensures r == self.len,
#item struct NodeIter
#raw
// keys and values in step; flags as the number of children says
spec fn niok<KI: VDe, VI: VDe, NI: VDe>(i: NodeIter<KI, VI, NI>) -> bool {
    let k = i.kids.todo().len() as int;
    let e = i.keys.todo().len() as int;
    &&& i.vals.todo().len() == e
    &&& k > 0 ==> bal(!i.is_next_elem, !i.is_next_back_elem, k, e)
    &&& k == 0 && (!i.is_next_elem || !i.is_next_back_elem) ==> e == 0
}
spec fn zipped<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> { Seq::new(a.len(), |i: int| (a[i], b[i])) }
impl<KI: VDe, VI: VDe, NI: VDe> VNodeS for NodeIter<KI, VI, NI> {
    type EI = (KI::Item, VI::Item);
    type CI = NI::Item;
    type C = NI::Item;
    spec fn ok(&self) -> bool { niok(*self) }
    spec fn es(&self) -> Seq<(KI::Item, VI::Item)> { zipped(self.keys.todo(), self.vals.todo()) }
    spec fn ks(&self) -> Seq<NI::Item> { self.kids.todo() }
    spec fn lf(&self) -> bool { !self.is_next_elem && self.kids.todo().len() > 0 }
    spec fn rt(&self) -> bool { !self.is_next_back_elem && self.kids.todo().len() > 0 }
    spec fn ca(c: NI::Item) -> NI::Item { c }
    fn next(&mut self) -> (r: Option<IterAction<(KI::Item, VI::Item), NI::Item>>) { NodeIter::<KI, VI, NI>::next(self) }
    fn next_back(&mut self) -> (r: Option<IterAction<(KI::Item, VI::Item), NI::Item>>) { NodeIter::<KI, VI, NI>::next_back(self) }
}
#fn Iterator@NodeIter::next -> r
    requires niok(*old(self)),
    ensures
        niok(*final(self)),
        match r {
            Some(IterAction::Return(x)) => {
                &&& !old(self).lf() || old(self).ks().len() == 0
                &&& old(self).es().len() > 0 && x == old(self).es()[0]
                &&& final(self).es() =~= old(self).es().skip(1) && final(self).ks() =~= old(self).ks()
                &&& final(self).ks().len() > 0 ==> final(self).lf() && final(self).rt() == old(self).rt()
            }
            Some(IterAction::Descend(c)) => {
                &&& old(self).lf() && old(self).ks().len() > 0
                &&& c == old(self).ks()[0]
                &&& final(self).es() =~= old(self).es() && final(self).ks() =~= old(self).ks().skip(1)
                &&& final(self).ks().len() > 0 ==> !final(self).lf() && final(self).rt() == old(self).rt()
            }
            None => old(self).es().len() == 0 && old(self).ks().len() == 0,
        },
@sub ?(self\.kids\.next\w*\(\))\.map\(IterAction::Descend\) => match \1 { Some(c__) => Some(IterAction::Descend(c__)), None => None }
#fn DoubleEndedIterator@NodeIter::next_back -> r
    requires niok(*old(self)),
    ensures
        niok(*final(self)),
        match r {
            Some(IterAction::Return(x)) => {
                &&& !old(self).rt() || old(self).ks().len() == 0
                &&& old(self).es().len() > 0 && x == old(self).es().last()
                &&& final(self).es() =~= old(self).es().drop_last() && final(self).ks() =~= old(self).ks()
                &&& final(self).ks().len() > 0 ==> final(self).rt() && final(self).lf() == old(self).lf()
            }
            Some(IterAction::Descend(c)) => {
                &&& old(self).rt() && old(self).ks().len() > 0
                &&& c == old(self).ks().last()
                &&& final(self).es() =~= old(self).es() && final(self).ks() =~= old(self).ks().drop_last()
                &&& final(self).ks().len() > 0 ==> !final(self).rt() && final(self).lf() == old(self).lf()
            }
            None => old(self).es().len() == 0 && old(self).ks().len() == 0,
        },
@sub ?(self\.kids\.next\w*\(\))\.map\(IterAction::Descend\) => match \1 { Some(c__) => Some(IterAction::Descend(c__)), None => None }
#item type NodeIterRef
#item type NodeIterMut
#raw
// a node that may be opened
spec fn okid<K, V>(n: Node<K, V>) -> bool { shp(n, 1) }
// the children of a sound node may be opened
proof fn lemma_okid<K, V>(n: Node<K, V>)
    requires okid(n),
    ensures
        sok(n), ez(n).len() > 0, fan(n),
        forall|i: int| 0 <= i < kz(n).len() ==> okid(#[trigger] kd(n, i)) && nh(kd(n, i)) < nh(n),
        nels(n) == alt(kz(n).len() > 0, ksq(kz(n)), ez(n)),
{
    shp_unfold(n, 1);
    node(n);
    lemma_alt_il(ksq(kz(n)), ez(n));
    assert forall|i: int| 0 <= i < kz(n).len() implies okid(#[trigger] kd(n, i)) && nh(kd(n, i)) < nh(n) by {
        shp_unfold(kd(n, i), 5);
        shp_unfold(kd(n, i), 1);
    }
}
impl<'a, K, V> VNodeG for NodeIter<VSliceIter<'a, K>, VSliceIter<'a, V>, VSliceIter<'a, NodePtr<K, V>>> {
    type D = (K, V);
    spec fn ev(x: (&'a K, &'a V)) -> (K, V) { (*x.0, *x.1) }
    spec fn kok(c: &'a NodePtr<K, V>) -> bool { okid(an(*c)) }
    spec fn kh(c: &'a NodePtr<K, V>) -> nat { nh(an(*c)) }
    spec fn kv(c: &'a NodePtr<K, V>) -> Seq<(K, V)> { nels(an(*c)) }
    #[verifier::prophetic]
    spec fn fev(x: (&'a K, &'a V)) -> (K, V) { (*x.0, *x.1) }
    #[verifier::prophetic]
    spec fn esame(x: (&'a K, &'a V)) -> bool { true }
    #[verifier::prophetic]
    spec fn kfv(c: &'a NodePtr<K, V>) -> Seq<(K, V)> { nels(an(*c)) }
    #[verifier::prophetic]
    spec fn ksame(c: &'a NodePtr<K, V>) -> bool { true }
}
spec fn ref_of<'a, K, V>(it: NodeIterRef<'a, K, V>, n: Node<K, V>) -> bool {
    &&& it.ok() && it.lf() == (kz(n).len() > 0) && it.rt() == it.lf()
    &&& it.es().len() == ez(n).len() && it.ks().len() == kz(n).len()
    &&& forall|i: int| 0 <= i < it.es().len() ==> (*(#[trigger] it.es()[i]).0, *it.es()[i].1) == ez(n)[i]
    &&& forall|i: int| 0 <= i < it.ks().len() ==> *(#[trigger] it.ks()[i]) == kz(n)[i]
}
proof fn lemma_open_ref<'a, K, V>(c: &'a NodePtr<K, V>, it: NodeIterRef<'a, K, V>)
    requires okid(an(*c)), ref_of(it, an(*c)),
    ensures opened(it, c),
{
    let n = an(*c);
    lemma_okid(n);
    assert forall|i: int| 0 <= i < it.ks().len() implies okid(an(*#[trigger] it.ks()[i])) && nh(an(*it.ks()[i])) < nh(n) by {
        assert(okid(kd(n, i)) && nh(kd(n, i)) < nh(n));
    }
    assert(Seq::new(it.ks().len(), |i: int| nels(an(*it.ks()[i]))) =~= ksq(kz(n)));
    assert(Seq::new(it.es().len(), |i: int| (*it.es()[i].0, *it.es()[i].1)) =~= ez(n));
    assert(kvs::<NodeIterRef<'a, K, V>>(it.ks()) =~= ksq(kz(n)));
    assert(evs::<NodeIterRef<'a, K, V>>(it.es()) =~= ez(n));
    assert(fkvs::<NodeIterRef<'a, K, V>>(it.ks()) =~= ksq(kz(n)));
    assert(fevs::<NodeIterRef<'a, K, V>>(it.es()) =~= ez(n));
    lemma_open(it, c);
}
proof fn lemma_open<I: VNodeG>(r: I, c: I::C)
    requires
        r.ok() && r.es().len() > 0 && (r.ks().len() > 0 ==> r.ks().len() == r.es().len() + 1),
        r.lf() == (r.ks().len() > 0) && r.rt() == r.lf(),
        forall|i: int| 0 <= i < r.ks().len() ==> I::kok(#[trigger] r.ks()[i]) && I::kh(r.ks()[i]) < I::kh(c),
        rem(r) == I::kv(c),
        isame(r) ==> I::ksame(c) && frem(r) == I::kfv(c),
    ensures opened(r, c),
{
    assert(kvs::<I>(r.ks()) =~= Seq::new(r.ks().len(), |i: int| I::kv(r.ks()[i])));
    assert(evs::<I>(r.es()) =~= Seq::new(r.es().len(), |i: int| I::ev(r.es()[i])));
    assert(fkvs::<I>(r.ks()) =~= Seq::new(r.ks().len(), |i: int| I::kfv(r.ks()[i])));
    assert(fevs::<I>(r.es()) =~= Seq::new(r.es().len(), |i: int| I::fev(r.es()[i])));
}
impl<'a, K, V> NodeIterator<(&'a K, &'a V), &'a NodePtr<K, V>> for NodeIter<VSliceIter<'a, K>, VSliceIter<'a, V>, VSliceIter<'a, NodePtr<K, V>>> {
    fn new(n: &'a NodePtr<K, V>) -> (r: Self) {
        let r = NodeIterRef::<'a, K, V>::new(n);
        proof { lemma_open_ref(n, r); }
        r
    }
}
#fn NodeIterator@NodeIterRef::new -> r
    requires okid(an(*n)),
    ensures ref_of(r, an(*n)),
@begin
    proof { lemma_okid(an(*n)); }
#include keys.inc
#raw
// b has the keys and the shape of a
spec fn alike<K, V>(a: Node<K, V>, b: Node<K, V>) -> bool {
    &&& nh(a) == nh(b)
    &&& shp(a, 1) ==> shp(b, 1)
    &&& shp(a, 5) ==> shp(b, 5)
    &&& keys_of(nels(a)) == keys_of(nels(b))
}
proof fn lemma_keys_plus<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    ensures keys_of(a + b) == keys_of(a) + keys_of(b),
{
    assert(keys_of(a + b) =~= keys_of(a) + keys_of(b));
}
proof fn lemma_keys_suf<K, V>(ka: Seq<Seq<(K, V)>>, a: Seq<(K, V)>, kb: Seq<Seq<(K, V)>>, b: Seq<(K, V)>, i: int)
    requires
        a.len() == b.len(), ka.len() == kb.len(), 0 <= i,
        forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).0 == b[j].0,
        forall|j: int| 0 <= j < ka.len() ==> keys_of(#[trigger] ka[j]) == keys_of(kb[j]),
    ensures keys_of(suf(ka, a, i)) == keys_of(suf(kb, b, i)), keys_of(kat(ka, i)) == keys_of(kat(kb, i)),
    decreases a.len() - i
{
    if i < a.len() {
        lemma_keys_suf(ka, a, kb, b, i + 1);
        lemma_keys_plus(seq![a[i]] + kat(ka, i + 1), suf(ka, a, i + 1));
        lemma_keys_plus(seq![b[i]] + kat(kb, i + 1), suf(kb, b, i + 1));
        lemma_keys_plus(seq![a[i]], kat(ka, i + 1));
        lemma_keys_plus(seq![b[i]], kat(kb, i + 1));
        assert(keys_of(seq![a[i]]) =~= keys_of(seq![b[i]]));
    }
}
proof fn lemma_alike<K, V>(a: Node<K, V>, b: Node<K, V>)
    requires
        ez(a).len() == ez(b).len(), kz(a).len() == kz(b).len(), sok(a) ==> sok(b),
        forall|j: int| 0 <= j < ez(a).len() ==> (#[trigger] ez(a)[j]).0 == ez(b)[j].0,
        forall|j: int| 0 <= j < kz(a).len() ==> alike(#[trigger] kd(a, j), kd(b, j)),
    ensures alike(a, b),
{
    node(a); node(b);
    let (ka, kb) = (ksq(kz(a)), ksq(kz(b)));
    assert forall|j: int| 0 <= j < ka.len() implies keys_of(#[trigger] ka[j]) == keys_of(kb[j]) by {
        assert(alike(kd(a, j), kd(b, j)));
    }
    lemma_keys_suf(ka, ez(a), kb, ez(b), 0);
    lemma_keys_plus(kat(ka, 0), suf(ka, ez(a), 0));
    lemma_keys_plus(kat(kb, 0), suf(kb, ez(b), 0));
    if kz(a).len() > 0 { assert(alike(kd(a, 0), kd(b, 0))); }
    shp_unfold(a, 1); shp_unfold(b, 1);
    shp_unfold(a, 5); shp_unfold(b, 5);
    assert forall|i: int| 0 <= i < kz(b).len() && (shp(a, 1) || shp(a, 5)) implies
        shp(#[trigger] kd(b, i), 5) && nh(kd(b, i)) + 1 == nh(b) by {
        assert(alike(kd(a, i), kd(b, i)));
    }
}
impl<'a, K, V> VNodeG for NodeIter<VSliceIter<'a, K>, VSliceIterMut<'a, V>, VSliceIterMut<'a, NodePtr<K, V>>> {
    type D = (K, V);
    spec fn ev(x: (&'a K, &'a mut V)) -> (K, V) { (*x.0, *x.1) }
    spec fn kok(c: &'a mut NodePtr<K, V>) -> bool { okid(an(*c)) }
    spec fn kh(c: &'a mut NodePtr<K, V>) -> nat { nh(an(*c)) }
    spec fn kv(c: &'a mut NodePtr<K, V>) -> Seq<(K, V)> { nels(an(*c)) }
    #[verifier::prophetic]
    spec fn fev(x: (&'a K, &'a mut V)) -> (K, V) { (*x.0, *final(x.1)) }
    #[verifier::prophetic]
    spec fn esame(x: (&'a K, &'a mut V)) -> bool { true }
    #[verifier::prophetic]
    spec fn kfv(c: &'a mut NodePtr<K, V>) -> Seq<(K, V)> { nels(an(*final(c))) }
    #[verifier::prophetic]
    spec fn ksame(c: &'a mut NodePtr<K, V>) -> bool { alike(an(*c), an(*final(c))) }
}
// the iterator of a node's entries, and what they become
#[verifier::prophetic]
spec fn mut_of<'a, K, V>(it: NodeIterMut<'a, K, V>, n: Node<K, V>, f: Node<K, V>) -> bool {
    &&& it.ok() && it.lf() == (kz(n).len() > 0) && it.rt() == it.lf()
    &&& sok(f)
    &&& it.es().len() == ez(n).len() && ez(f).len() == ez(n).len()
    &&& forall|i: int| 0 <= i < it.es().len() ==> (*(#[trigger] it.es()[i]).0, *it.es()[i].1) == ez(n)[i]
            && (*it.es()[i].0, *final(it.es()[i].1)) == ez(f)[i]
    &&& it.ks().len() == kz(n).len() && kz(f).len() == kz(n).len()
    &&& forall|i: int| 0 <= i < it.ks().len() ==> *(#[trigger] it.ks()[i]) == kz(n)[i] && *final(it.ks()[i]) == kz(f)[i]
}
proof fn lemma_open_mut<'a, K, V>(c: &'a mut NodePtr<K, V>, it: NodeIterMut<'a, K, V>)
    requires okid(an(*c)), mut_of(it, an(*c), an(*final(c))),
    ensures opened(it, c),
{
    let n = an(*c);
    let f = an(*final(c));
    lemma_okid(n);
    assert forall|i: int| 0 <= i < it.ks().len() implies
        NodeIterMut::<'a, K, V>::kok(#[trigger] it.ks()[i]) && NodeIterMut::<'a, K, V>::kh(it.ks()[i]) < NodeIterMut::<'a, K, V>::kh(c) by {
        assert(*it.ks()[i] == kz(n)[i]);
        assert(okid(kd(n, i)) && nh(kd(n, i)) < nh(n));
    }
    assert(kvs::<NodeIterMut<'a, K, V>>(it.ks()) =~= ksq(kz(n)));
    assert(evs::<NodeIterMut<'a, K, V>>(it.es()) =~= ez(n));
    assert(fkvs::<NodeIterMut<'a, K, V>>(it.ks()) =~= ksq(kz(f)));
    assert(fevs::<NodeIterMut<'a, K, V>>(it.es()) =~= ez(f));
    node(f);
    lemma_alt_il(ksq(kz(f)), ez(f));
    lemma_mut_same(it, n, f);
    lemma_open(it, c);
}
proof fn lemma_mut_same<'a, K, V>(it: NodeIterMut<'a, K, V>, n: Node<K, V>, f: Node<K, V>)
    requires mut_of(it, n, f),
    ensures isame(it) ==> alike(n, f),
{
    assert forall|j: int| 0 <= j < ez(n).len() implies (#[trigger] ez(n)[j]).0 == ez(f)[j].0 by {
        assert((*(it.es()[j]).0, *it.es()[j].1) == ez(n)[j]);
    }
    assert forall|j: int| 0 <= j < kz(n).len() && isame(it) implies alike(#[trigger] kd(n, j), kd(f, j)) by {
        assert(NodeIterMut::<'a, K, V>::ksame(it.ks()[j]));
    }
    lemma_alike_if(n, f, isame(it));
}
proof fn lemma_alike_if<K, V>(a: Node<K, V>, b: Node<K, V>, c: bool)
    requires
        ez(a).len() == ez(b).len(), kz(a).len() == kz(b).len(), sok(a) ==> sok(b),
        forall|j: int| 0 <= j < ez(a).len() ==> (#[trigger] ez(a)[j]).0 == ez(b)[j].0,
        c ==> forall|j: int| 0 <= j < kz(a).len() ==> alike(#[trigger] kd(a, j), kd(b, j)),
    ensures c ==> alike(a, b),
{
    if c { lemma_alike(a, b); }
}
impl<'a, K: Clone, V: Clone> NodeIterator<(&'a K, &'a mut V), &'a mut NodePtr<K, V>> for NodeIter<VSliceIter<'a, K>, VSliceIterMut<'a, V>, VSliceIterMut<'a, NodePtr<K, V>>> {
    fn new(n: &'a mut NodePtr<K, V>) -> (r: Self) {
        let ghost c = n;
        let r = NodeIterMut::<'a, K, V>::new(n);
        proof { lemma_open_mut(c, r); }
        r
    }
}
#fn NodeIterator@NodeIterMut::new -> r
    requires okid(an(*old(n))),
    ensures mut_of(r, an(*old(n)), an(*final(n))),
@begin
    proof { lemma_okid(an(*n)); }
#item enum OwnedOrLeased +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V)
#item struct NodeIntoIter +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V)
#raw
// exactly the slots a..b hold values
spec fn run<T>(s: Seq<Option<T>>, a: int, b: int) -> bool {
    &&& 0 <= a <= b <= s.len()
    &&& forall|i: int| a <= i < b ==> #[trigger] s[i] is Some
    &&& forall|i: int| 0 <= i < s.len() && !(a <= i < b) ==> #[trigger] s[i] is None
}
// which entries and children are left: as the positions at both ends say
spec fn iigeo<K, V>(i: NodeIntoIter<K, V>) -> bool {
    &&& i.next_elem_x <= i.end_elems <= 11 && i.next_kid_x <= i.end_kids <= 12
    &&& i.next_kid_x < i.end_kids ==> {
        &&& i.next_kid_x == i.next_elem_x || i.next_kid_x == i.next_elem_x + 1
        &&& i.end_kids == i.end_elems || i.end_kids == i.end_elems + 1
    }
}
spec fn iiok<K, V>(i: NodeIntoIter<K, V>) -> bool {
    &&& iigeo(i)
    &&& match i.n {
        OwnedOrLeased::Owned(n) => {
            &&& n.elems.keys.s@.len() == 11 && n.elems.vals.s@.len() == 11
            &&& run(n.elems.keys.s@, i.next_elem_x as int, i.end_elems as int)
            &&& run(n.elems.vals.s@, i.next_elem_x as int, i.end_elems as int)
            &&& match n.kids {
                Some(b) => (*b).keys.s@.len() == 12 && (*b).vals.s@.len() == 12 && run((*b).keys.s@, i.next_kid_x as int, i.end_kids as int),
                None => i.next_kid_x == i.end_kids,
            }
        }
        OwnedOrLeased::Leased(a) => sok(an(a)) && i.end_elems <= ez(an(a)).len() && i.end_kids <= kz(an(a)).len(),
    }
}
// the node behind either
spec fn oan<K, V>(c: OwnedOrLeased<K, V>) -> Node<K, V> {
    match c { OwnedOrLeased::Owned(n) => n, OwnedOrLeased::Leased(a) => an(a) }
}
// what the slots a..b of both arrays hold
spec fn pairs<K, V>(k: Seq<Option<K>>, v: Seq<Option<V>>, a: int, b: int) -> Seq<(K, V)> {
    Seq::new((b - a) as nat, |i: int| (k[a + i]->0, v[a + i]->0))
}
spec fn nodes<K, V>(s: Seq<Option<NodePtr<K, V>>>, a: int, b: int) -> Seq<Node<K, V>> {
    Seq::new((b - a) as nat, |i: int| an(s[a + i]->0))
}
spec fn ii_es<K, V>(i: NodeIntoIter<K, V>) -> Seq<(K, V)> {
    pairs(oan(i.n).elems.keys.s@, oan(i.n).elems.vals.s@, i.next_elem_x as int, i.end_elems as int)
}
spec fn ii_ks<K, V>(i: NodeIntoIter<K, V>) -> Seq<Node<K, V>> {
    nodes((*oan(i.n).kids->0).keys.s@, i.next_kid_x as int, i.end_kids as int)
}
impl<K: Clone, V: Clone> VNodeS for NodeIntoIter<K, V> {
    type EI = (K, V);
    type CI = OwnedOrLeased<K, V>;
    type C = Node<K, V>;
    spec fn ok(&self) -> bool { iiok(*self) }
    spec fn es(&self) -> Seq<(K, V)> { ii_es(*self) }
    spec fn ks(&self) -> Seq<Node<K, V>> { ii_ks(*self) }
    spec fn lf(&self) -> bool { self.next_kid_x < self.end_kids && self.next_kid_x <= self.next_elem_x }
    spec fn rt(&self) -> bool { self.next_kid_x < self.end_kids && self.end_elems < self.end_kids }
    spec fn ca(c: OwnedOrLeased<K, V>) -> Node<K, V> { oan(c) }
    fn next(&mut self) -> (r: Option<IterAction<(K, V), OwnedOrLeased<K, V>>>) { NodeIntoIter::<K, V>::next(self) }
    fn next_back(&mut self) -> (r: Option<IterAction<(K, V), OwnedOrLeased<K, V>>>) { NodeIntoIter::<K, V>::next_back(self) }
}
impl<K: Clone, V: Clone> VNodeG for NodeIntoIter<K, V> {
    type D = (K, V);
    spec fn ev(x: (K, V)) -> (K, V) { x }
    spec fn kok(c: Node<K, V>) -> bool { okid(c) }
    spec fn kh(c: Node<K, V>) -> nat { nh(c) }
    spec fn kv(c: Node<K, V>) -> Seq<(K, V)> { nels(c) }
    #[verifier::prophetic]
    spec fn fev(x: (K, V)) -> (K, V) { x }
    #[verifier::prophetic]
    spec fn esame(x: (K, V)) -> bool { true }
    #[verifier::prophetic]
    spec fn kfv(c: Node<K, V>) -> Seq<(K, V)> { nels(c) }
    #[verifier::prophetic]
    spec fn ksame(c: Node<K, V>) -> bool { true }
}
spec fn into_of<K, V>(it: NodeIntoIter<K, V>, n: Node<K, V>) -> bool {
    &&& iiok(it) && oan(it.n) == n
    &&& it.next_elem_x == 0 && it.next_kid_x == 0 && it.end_elems == ez(n).len() && it.end_kids == kz(n).len()
}
proof fn lemma_open_into<K: Clone, V: Clone>(n: Node<K, V>, it: NodeIntoIter<K, V>)
    requires okid(n), into_of(it, n),
    ensures opened(it, n),
{
    lemma_okid(n);
    assert(it.es() =~= ez(n));
    assert forall|i: int| 0 <= i < it.ks().len() implies #[trigger] it.ks()[i] == kd(n, i) by {}
    assert forall|i: int| 0 <= i < it.ks().len() implies okid(#[trigger] it.ks()[i]) && nh(it.ks()[i]) < nh(n) by {
        assert(okid(kd(n, i)) && nh(kd(n, i)) < nh(n));
    }
    assert(kvs::<NodeIntoIter<K, V>>(it.ks()) =~= ksq(kz(n)));
    assert(evs::<NodeIntoIter<K, V>>(it.es()) =~= ez(n));
    assert(fkvs::<NodeIntoIter<K, V>>(it.ks()) =~= ksq(kz(n)));
    assert(fevs::<NodeIntoIter<K, V>>(it.es()) =~= ez(n));
    lemma_open(it, n);
}
impl<K: Clone, V: Clone> NodeIterator<(K, V), OwnedOrLeased<K, V>> for NodeIntoIter<K, V> {
    fn new(n: OwnedOrLeased<K, V>) -> (r: Self) {
        let ghost c = oan(n);
        let r = NodeIntoIter::<K, V>::new(n);
        proof { lemma_open_into(c, r); }
        r
    }
}
#fn Iterator@NodeIntoIter::next -> r
    requires iiok(*old(self)),
    ensures
        iiok(*final(self)),
        match r {
            Some(IterAction::Return(x)) => {
                &&& !old(self).lf() || old(self).ks().len() == 0
                &&& old(self).es().len() > 0 && x == old(self).es()[0]
                &&& final(self).es() =~= old(self).es().skip(1) && final(self).ks() =~= old(self).ks()
                &&& final(self).ks().len() > 0 ==> final(self).lf() && final(self).rt() == old(self).rt()
            }
            Some(IterAction::Descend(c)) => {
                &&& old(self).lf() && old(self).ks().len() > 0
                &&& oan(c) == old(self).ks()[0]
                &&& final(self).es() =~= old(self).es() && final(self).ks() =~= old(self).ks().skip(1)
                &&& final(self).ks().len() > 0 ==> !final(self).lf() && final(self).rt() == old(self).rt()
            }
            None => old(self).es().len() == 0 && old(self).ks().len() == 0,
        },
#fn DoubleEndedIterator@NodeIntoIter::next_back -> r
    requires iiok(*old(self)),
    ensures
        iiok(*final(self)),
        match r {
            Some(IterAction::Return(x)) => {
                &&& !old(self).rt() || old(self).ks().len() == 0
                &&& old(self).es().len() > 0 && x == old(self).es().last()
                &&& final(self).es() =~= old(self).es().drop_last() && final(self).ks() =~= old(self).ks()
                &&& final(self).ks().len() > 0 ==> final(self).rt() && final(self).lf() == old(self).lf()
            }
            Some(IterAction::Descend(c)) => {
                &&& old(self).rt() && old(self).ks().len() > 0
                &&& oan(c) == old(self).ks().last()
                &&& final(self).es() =~= old(self).es() && final(self).ks() =~= old(self).ks().drop_last()
                &&& final(self).ks().len() > 0 ==> !final(self).rt() && final(self).lf() == old(self).lf()
            }
            None => old(self).es().len() == 0 && old(self).ks().len() == 0,
        },
#fn NodeIterator@NodeIntoIter::new -> r
    requires okid(oan(n)),
    ensures into_of(r, oan(n)),
@begin
    proof { lemma_okid(oan(n)); }
@sub ?n\.kids\(\)\.map\(\|(\w+)\| (\w+)\.len\(\)\)\.unwrap_or\(0\) => match n.kids() { Some(\1) => \2.len(), None => 0 }
#fn Drop@NodeIntoIter::drop +name=drop_
    requires iiok(*old(self)),
    ensures
        match final(self).n {
            OwnedOrLeased::Owned(n) => n.kids is None && n.elems.len == 0 && full(n.elems.keys.s@, 0) && full(n.elems.vals.s@, 0),
            OwnedOrLeased::Leased(a) => final(self).n == old(self).n,
        },
@begin
    let ghost o = oan(self.n);
    let ghost s0 = *self;
@loop 0
    invariant
        s0.n is Owned, iiok(s0), o == oan(s0.n), s0.next_elem_x == self.next_elem_x, s0.end_elems == self.end_elems,
        n.kids == o.kids, n.elems.keys.s@.len() == 11, n.elems.vals.s@.len() == 11,
        forall|j: int| 0 <= j < i ==> n.elems.keys.s@[j] is None && n.elems.vals.s@[j] is None,
        forall|j: int| i <= j < 11 ==> n.elems.keys.s@[j] == o.elems.keys.s@[j] && n.elems.vals.s@[j] == o.elems.vals.s@[j],
@body 0
    proof { assert(s0.next_elem_x <= i); assert(i < s0.end_elems); assert(o.elems.keys.s@[i as int] is Some); assert(o.elems.vals.s@[i as int] is Some); }
@past 0
    proof {
        assert(run(o.elems.keys.s@, s0.next_elem_x as int, s0.end_elems as int));
        assert forall|j: int| 0 <= j < 11 implies n.elems.keys.s@[j] is None && n.elems.vals.s@[j] is None by {
            assert(!(j >= s0.end_elems) || o.elems.keys.s@[j] is None);
            assert(!(j >= s0.end_elems) || o.elems.vals.s@[j] is None);
        }
    }
@loop 1
    invariant
        s0.n is Owned, iiok(s0), o == oan(s0.n), s0.next_kid_x == self.next_kid_x, s0.end_kids == self.end_kids,
        n.kids is None, n.elems.len == 0, full(n.elems.keys.s@, 0), full(n.elems.vals.s@, 0),
        o.kids is Some, (*kids).keys.s@.len() == 12, (*kids).vals.s@.len() == 12,
        forall|j: int| 0 <= j < i ==> (*kids).keys.s@[j] is None,
        forall|j: int| i <= j < 12 ==> (*kids).keys.s@[j] == (*o.kids->0).keys.s@[j],
@tail
    // what the box goes out of scope with
    proof { assert((*kids).len == 0 && full((*kids).keys.s@, 0)); }
#item type Iter
#item type IterMut
#item type IntoIter
#raw
// an iterator over exactly these entries, of which `len` is the number
#[verifier::prophetic]
spec fn over<E, N, NI: NodeIterator<E, N>>(i: InnerIter<E, N, NI>, s: Seq<NI::D>) -> bool {
    good(i.work@) && flat(i.work@) == s && i.len == s.len()
}
// an iterator of references into `o`, which will be `n` when it has ended
#[verifier::prophetic]
spec fn over_mut<'a, K: Ord + Clone, V: Clone>(i: IterMut<'a, K, V>, o: BTreeMap<K, V>, n: BTreeMap<K, V>) -> bool {
    &&& over(i, mels(o))
    &&& same(i.work@) ==> mwf(n) && n.len == o.len && keys_of(mels(n)) == keys_of(mels(o)) && mels(n) == fflat(i.work@)
}
spec fn ralike<K, V>(a: Option<NodePtr<K, V>>, b: Option<NodePtr<K, V>>) -> bool {
    match (a, b) { (Some(x), Some(y)) => alike(an(x), an(y)), (None, None) => true, _ => false }
}
proof fn lemma_alike_wf<K: Ord, V>(a: BTreeMap<K, V>, b: BTreeMap<K, V>)
    requires mwf(a), b.len == a.len,
    ensures ralike(a.root, b.root) ==> mwf(b) && keys_of(mels(b)) == keys_of(mels(a)),
{
    if ralike(a.root, b.root) && keys_of(mels(a)) == keys_of(mels(b)) { lemma_same_keys_sorted(mels(a), mels(b)); }
}
#fn new_into_iter -> r
    requires root is Some ==> okid(an(root->0)),
    ensures
        good(r.work@), flat(r.work@) == rels(root), r.len == len,
@closure 0 (arc: NodePtr<K, V>) -> (r: OwnedOrLeased<K, V>)
    ensures oan(r) == an(arc),
@tail
    proof { lemma_one_node(__r.work@); }
#source src/btree/fixed.rs
#fn BTreeMap::iter -> r +where=K:Ord
@ret 'q Iter<'q, K, V>
    requires mwf(*self),
    ensures over(r, mels(*self)),
@tail
    proof { lemma_one_node(__r.work@); }
#fn BTreeMap::iter_mut -> r +where=K:Ord
@ret 'q IterMut<'q, K, V>
    requires mwf(*old(self)),
    ensures over_mut(r, *old(self), *final(self)),
@begin
    let ghost m = *self;
    let ghost fin = *final(self);
@tail
    proof { lemma_one_node(__r.work@); lemma_alike_wf(m, fin); }
#fn IntoIterator@BTreeMap::into_iter -> r +where=K:Ord
    requires mwf(self),
    ensures over(r, mels(self)),
#raw
// what `into_iter` yields when it is run to its end
fn drain_map<K: Clone + Ord, V: Clone>(m: BTreeMap<K, V>) -> (r: Vec<(K, V)>)
    requires mwf(m),
    ensures r@ == mels(m),
{
    let mut v: Vec<(K, V)> = Vec::new();
    let mut it = m.into_iter();
    proof { assert(v@ + mels(m) =~= mels(m)); }
    loop
        invariant
            ready(it), it.len == flat(it.work@).len(),
            mels(m) == v@ + flat(it.work@),
        ensures mels(m) == v@,
        decreases flat(it.work@).len(),
    {
        let ghost w0 = it.work@;
        let ghost v0 = v@;
        match it.next() {
            Some(x) => {
                v.push(x);
                proof { assert(v0 + (seq![x] + flat(it.work@)) =~= v@ + flat(it.work@)); }
            }
            None => { proof { assert(v@ + flat(w0) =~= v@); } break; }
        }
    }
    v
}
