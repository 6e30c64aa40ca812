#raw
// ---------------------------------------------------------------------------
// BTreeSet: a map to ().
// ---------------------------------------------------------------------------
#source src/btree/btree_set.rs
#expand make_set_op_iter src/lib.rs
#subst \bcrate::btree::Iter< => MapIter<
#subst \bcrate::btree::IntoIter< => MapIntoIter<
#subst \bcrate::SetOpIter\b => SetOpIter
#subst \bIter\b => SetIter
#subst \bIntoIter\b => SetIntoIter
#subst \bMapIter\b => Iter
#subst \bMapIntoIter\b => IntoIter
#subst ,\s*\(\)(?=[>),]) => ,Unit
#subst \.clone\(\) => .vclone()
#subst \b(?:std::)?mem::take\((\w+)\) => mem_replace(\1,BTreeSet::default_())
#subst \bself\.map\.into_iter\(\) => self.map.map_into_iter()
#subst \.into_iter\(\) => .vinto_iter()
#subst \.map_into_iter\(\) => .into_iter()
#subst \.filter\( => .vfilter(
#subst \.collect\(\) => .vcollect_set()
#raw
spec fn selems<T, const N: usize>(s: BTreeSet<T, N>) -> Seq<(T, Unit)> { mels(s.map) }
spec fn swf<T: Ord, const N: usize>(s: BTreeSet<T, N>) -> bool { mwf(s.map) }
#item struct BTreeSet +attr=verifier::reject_recursive_types(T)
#raw
#prop C15
#fn Clone@BTreeSet::clone -> r +keeptrait
    ensures r == *self,
#raw
#item struct Iter +attr=verifier::reject_recursive_types(T) +attr=verifier::reject_recursive_types(N)
#item struct IntoIter +attr=verifier::reject_recursive_types(T) +attr=verifier::reject_recursive_types(N)
#prop C05 C09
#fn BTreeSet::append
    requires swf(*old(self)), swf(*old(other)), lawful::<T>(), old(self).map.len + old(other).map.len <= usize::MAX,
    ensures
        swf(*final(self)), swf(*final(other)), selems(*final(other)) == Seq::<(T, Unit)>::empty(),
        forall|k: T| #[trigger] has_key(selems(*final(self)), kcut(k)) == (has_key(selems(*old(self)), kcut(k)) || has_key(selems(*old(other)), kcut(k))),
@begin
    proof { lemma_has::<T, Unit>(); lemma_mwf(self.map); lemma_mwf(other.map); lemma_get_ext(selems(*self), selems(*other)); }
#fn BTreeSet::clear +where=T:Ord
    requires swf(*old(self)),
    ensures swf(*final(self)), selems(*final(self)) == Seq::<(T, Unit)>::empty(),
@begin
    broadcast use lemma_sorted_empty;
#fn BTreeSet::contains -> r +where=T:Ord
    requires swf(*self), lawful_q::<T, Q>(),
    ensures r == has_key(selems(*self), qcut::<T, Q>(*value)),
#fn BTreeSet::first -> r +where=T:Ord
    requires swf(*self),
    ensures
        selems(*self).len() == 0 ==> r is None,
        selems(*self).len() > 0 ==> r is Some && *(r->0) == selems(*self)[0].0,
@closure 0 (e: (&T, &Unit)) -> (r: &T)
    ensures r == e.0,
#fn BTreeSet::get -> r +where=T:Ord
    requires swf(*self), lawful_q::<T, Q>(),
    ensures match m_get(selems(*self), qcut::<T, Q>(*value)) {
        None => r is None,
        Some(e) => r is Some && *(r->0) == e.0,
    },
@closure 0 (e: (&T, &Unit)) -> (r: &T)
    ensures r == e.0,
#fn BTreeSet::insert -> r
    requires swf(*old(self)), lawful::<T>(), old(self).map.len < usize::MAX,
    ensures
        swf(*final(self)),
        selems(*final(self)) == m_ins(selems(*old(self)), value, Unit),
        r == !has_key(selems(*old(self)), kcut(value)),
#fn BTreeSet::is_empty -> r
    ensures r == (self.map.len == 0),
#fn BTreeSet::last -> r +where=T:Ord
    requires swf(*self),
    ensures
        selems(*self).len() == 0 ==> r is None,
        selems(*self).len() > 0 ==> r is Some && *(r->0) == selems(*self).last().0,
@closure 0 (e: (&T, &Unit)) -> (r: &T)
    ensures r == e.0,
#fn BTreeSet::len -> r
    ensures r == self.map.len,
#fn BTreeSet::new -> r +where=T:Ord
    requires okn::<N>(),
    ensures swf(r), selems(r) == Seq::<(T, Unit)>::empty(),
@begin
    broadcast use lemma_sorted_empty;
#fn Default@BTreeSet::default -> r +name=default_ +where=T:Ord
    requires okn::<N>(),
    ensures swf(r), selems(r) == Seq::<(T, Unit)>::empty(),
#raw
// a set passed as a source yields its elements in order: `drain_set` runs the real iterator
#[verifier::external]
impl<T, const N: usize> IntoIterator for BTreeSet<T, N> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter { unimplemented!() }
}
broadcast axiom fn axiom_yields_set<T, const N: usize>(s: BTreeSet<T, N>)
    ensures #[trigger] yields::<BTreeSet<T, N>>(s) == keys_of(selems(s));
fn drain_set<T: Clone + Ord, const N: usize>(s: BTreeSet<T, N>) -> (r: Vec<T>)
    requires swf(s),
    ensures r@ == keys_of(selems(s)),
{
    let mut v: Vec<T> = Vec::new();
    let mut it = BTreeSet::set_into_iter(s);
    proof { assert(units(v@) + selems(s) =~= selems(s)); }
    loop
        invariant
            ready(it.iter.iter), makes(it.iter.iter.make_node_iter),
            selems(s) == units(v@) + flat(it.iter.iter.work@),
        ensures selems(s) == units(v@),
        decreases flat(it.iter.iter.work@).len(),
    {
        let ghost w0 = it.iter.iter.work@;
        let ghost v0 = v@;
        match it.next() {
            Some(x) => {
                v.push(x);
                proof { assert(units(v0) + (seq![(x, Unit)] + flat(it.iter.iter.work@)) =~= units(v@) + flat(it.iter.iter.work@)); }
            }
            None => { proof { lemma_ends(it.iter.iter.work@); assert(units(v@) + flat(w0) =~= units(v@)); } break; }
        }
    }
    proof { assert(keys_of(units(v@)) =~= v@); }
    v
}
proof fn lemma_units<T>(s: Seq<(T, Unit)>)
    ensures units(keys_of(s)) == s, keys_of(s).len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] keys_of(s)[i] == s[i].0 && s[i] == (s[i].0, Unit),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == (s[i].0, Unit) by { assert(s[i].1 == Unit); }
    assert(units(keys_of(s)) =~= s);
}
proof fn lemma_units_picks<T>(s: Seq<T>, o: Seq<bool>)
    requires s.len() == o.len(),
    ensures units(picks(s, o, true)) == picks(units(s), o, true),
    decreases s.len()
{
    if s.len() > 0 {
        assert(units(s).drop_last() =~= units(s.drop_last()));
        let d = o.drop_last();
        lemma_units_picks(s.drop_last(), d);
        lemma_picks_eq(s.drop_last(), o, d, true);
        lemma_picks_eq(units(s.drop_last()), o, d, true);
        assert(units(picks(s, o, true)) =~= picks(units(s), o, true));
    } else {
        assert(units(picks(s, o, true)) =~= picks(units(s), o, true));
    }
}
// filter(), as std defines it, on the elements a source yields; collect() into a set
trait VFilterIt<E>: Sized {
    spec fn fseq(self) -> Seq<E>;
    fn vfilter<F: FnMut(&E) -> bool>(self, f: F) -> (r: Vec<E>)
        requires forall|i: int| 0 <= i < self.fseq().len() ==> f.requires((&(#[trigger] self.fseq()[i]),)),
        ensures exists|o: Seq<bool>| is_part(f, self.fseq(), o) && r@ == #[trigger] picks(self.fseq(), o, true);
    fn vcollect_set<const N: usize>(self) -> (r: BTreeSet<E, N>)
        where E: Clone + Ord
        requires okn::<N>(), lawful::<E>(),
        ensures swf(r), selems(r) == m_ext(Seq::<(E, Unit)>::empty(), units(self.fseq()));
}
impl<E> VFilterIt<E> for Vec<E> {
    spec fn fseq(self) -> Seq<E> { self@ }
    fn vfilter<F: FnMut(&E) -> bool>(self, f: F) -> (r: Vec<E>) {
        let mut f = f;
        let ghost f0 = f;
        let ghost s = self.fseq();
        let mut a: Vec<E> = Vec::new();
        let ghost mut o: Seq<bool> = Seq::empty();
        for x in it: self
            invariant
                it.seq() == s, o.len() == it.index@, f == f0,
                forall|i: int| 0 <= i < s.len() ==> f0.requires((&(#[trigger] s[i]),)),
                forall|i: int| 0 <= i < it.index@ ==> f0.ensures((&#[trigger] s[i],), #[trigger] o[i]),
                a@ == picks(s.take(it.index@), o, true),
        {
            let ghost n = it.index@;
            let ghost o0 = o;
            let y = f(&x);
            proof {
                o = o.push(y);
                assert(s.take(n + 1).drop_last() =~= s.take(n));
                lemma_picks_eq(s.take(n), o0, o, true);
            }
            if y { a.push(x); }
        }
        proof { assert(s.take(s.len() as int) =~= s); assert(is_part(f0, s, o)); }
        a
    }
    fn vcollect_set<const N: usize>(self) -> (r: BTreeSet<E, N>) where E: Clone + Ord {
        broadcast use axiom_yields_vec;
        BTreeSet::from_iter(self)
    }
}
// the elements of a that pass (keep) or fail a test for being in b
proof fn lemma_pick_in<T: Ord>(a: Seq<(T, Unit)>, b: Seq<(T, Unit)>, o: Seq<bool>, keep: bool)
    requires lawful::<T>(), sorted(a), sorted(b), o.len() == a.len(),
        forall|i: int| 0 <= i < a.len() ==> #[trigger] o[i] == (has_key(b, kcut(a[i].0)) == keep),
    ensures ({
        let r = m_ext(Seq::<(T, Unit)>::empty(), picks(a, o, true));
        &&& sorted(r)
        &&& forall|k: T| #[trigger] m_get(r, kcut(k)) == (if has_key(b, kcut(k)) == keep { m_get(a, kcut(k)) } else { None })
        &&& forall|k: T| #[trigger] has_key(r, kcut(k)) == (has_key(a, kcut(k)) && has_key(b, kcut(k)) == keep)
    }),
{
    let p = |k: T| has_key(b, kcut(k)) == keep;
    lemma_get_same(b);
    assert forall|x: T, y: T| eqv(x, y) && #[trigger] p(x) implies #[trigger] p(y) by {
        assert(m_get(b, kcut(x)) == m_get(b, kcut(y)));
    }
    lemma_get_picks(a, o, p);
    let s = picks(a, o, true);
    assert(Seq::<(T, Unit)>::empty() + s =~= s);
    lemma_ext_sorted(Seq::<(T, Unit)>::empty(), s);
    assert forall|k: T| #[trigger] has_key(s, kcut(k)) == (has_key(a, kcut(k)) && has_key(b, kcut(k)) == keep) by {
        assert(m_get(s, kcut(k)) == (if p(k) { m_get(a, kcut(k)) } else { None }));
    }
}
#fn BTreeSet::new_diff -> r
    requires swf(lhs), swf(rhs), lawful::<T>(), (lhs.map.len + rhs.map.len) * 4 <= usize::MAX,
    ensures
        swf(r),
        forall|k: T| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(lhs), kcut(k)) && !has_key(selems(rhs), kcut(k))),
@sub \bin rhs\b => in it__: vec_of(rhs)
@begin
    broadcast use axiom_yields_set;
    let ghost (a, b) = (selems(lhs), selems(rhs));
    proof {
        lemma_has::<T, Unit>(); lemma_mwf(lhs.map); lemma_mwf(rhs.map); lemma_lawful_refl::<T>();
        lemma_get_empty(b.take(0));
        lemma_units(a); lemma_units(b);
        assert forall|o: Seq<bool>| #![trigger picks(keys_of(a), o, true)] o.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] o[i] == !has_key(b, kcut(a[i].0))) implies
            units(picks(keys_of(a), o, true)) == picks(a, o, true) by { lemma_units_picks(keys_of(a), o); }
        assert forall|o: Seq<bool>| #![trigger picks(a, o, true)] o.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] o[i] == !has_key(b, kcut(a[i].0))) implies
            (forall|k: T| #[trigger] has_key(m_ext(Seq::<(T, Unit)>::empty(), picks(a, o, true)), kcut(k)) == (has_key(a, kcut(k)) && !has_key(b, kcut(k)))) by { lemma_pick_in(a, b, o, false); }
    }
@closure 0 (k: &T) -> (y: bool)
    requires swf(rhs), lawful_q::<T, T>(),
    ensures y == !has_key(selems(rhs), kcut(*k)),
@loop 0
    invariant
        it__.seq() == keys_of(b), 0 <= it__.index@ <= b.len(), sorted(a), sorted(b), lawful::<T>(), lawful_q::<T, T>(),
        swf(lhs),
        forall|x: T| #[trigger] m_get(selems(lhs), kcut(x)) == s_sub(m_get(a, kcut(x)), m_get(b.take(it__.index@), kcut(x))),
@body 0
    proof {
        lemma_units(b); lemma_mwf(lhs.map); lemma_lawful_refl::<T>();
        lemma_get_take(b, it__.index@);
        lemma_get_rm(selems(lhs), b[it__.index@].0);
    }
@past 0
    proof { lemma_has::<T, Unit>(); assert(b.take(b.len() as int) =~= b); }
#fn BTreeSet::new_intersection -> r
    requires swf(lhs), swf(rhs), lawful::<T>(),
    ensures
        swf(r),
        forall|k: T| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(lhs), kcut(k)) && has_key(selems(rhs), kcut(k))),
@begin
    broadcast use axiom_yields_set;
    let ghost (a, b) = (selems(lhs), selems(rhs));
    proof {
        lemma_has::<T, Unit>(); lemma_mwf(lhs.map); lemma_mwf(rhs.map); lemma_lawful_refl::<T>();
        lemma_units(a); lemma_units(b);
        assert forall|o: Seq<bool>| #![trigger picks(keys_of(a), o, true)] o.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] o[i] == has_key(b, kcut(a[i].0))) implies
            units(picks(keys_of(a), o, true)) == picks(a, o, true) by { lemma_units_picks(keys_of(a), o); }
        assert forall|o: Seq<bool>| #![trigger picks(a, o, true)] o.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] o[i] == has_key(b, kcut(a[i].0))) implies
            (forall|k: T| #[trigger] has_key(m_ext(Seq::<(T, Unit)>::empty(), picks(a, o, true)), kcut(k)) == (has_key(a, kcut(k)) && has_key(b, kcut(k)))) by { lemma_pick_in(a, b, o, true); }
        assert forall|o: Seq<bool>| #![trigger picks(keys_of(b), o, true)] o.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> #[trigger] o[i] == has_key(a, kcut(b[i].0))) implies
            units(picks(keys_of(b), o, true)) == picks(b, o, true) by { lemma_units_picks(keys_of(b), o); }
        assert forall|o: Seq<bool>| #![trigger picks(b, o, true)] o.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> #[trigger] o[i] == has_key(a, kcut(b[i].0))) implies
            (forall|k: T| #[trigger] has_key(m_ext(Seq::<(T, Unit)>::empty(), picks(b, o, true)), kcut(k)) == (has_key(b, kcut(k)) && has_key(a, kcut(k)))) by { lemma_pick_in(b, a, o, true); }
    }
@closure 0 (k: &T) -> (y: bool)
    requires swf(rhs), lawful_q::<T, T>(),
    ensures y == has_key(selems(rhs), kcut(*k)),
@closure 1 (k: &T) -> (y: bool)
    requires swf(lhs), lawful_q::<T, T>(),
    ensures y == has_key(selems(lhs), kcut(*k)),
#raw
proof fn lemma_put_unit<K: Ord>(s: Seq<(K, Unit)>, k: K)
    requires sorted(s), lawful::<K>(),
    ensures forall|u: Unit| #[trigger] put(s, k, u) == (if has_key(s, kcut(k)) { s } else { m_ins(s, k, Unit) }),
{
    lemma_kcut_mono(k);
    lemma_idx(s, kcut(k));
    assert forall|u: Unit| #[trigger] put(s, k, u) == (if has_key(s, kcut(k)) { s } else { m_ins(s, k, Unit) }) by {
        assert(u == Unit);
        if has_key(s, kcut(k)) { assert(s[idx(s, kcut(k))].1 == u); assert(m_upd(s, kcut(k), u) =~= s); }
    }
}
#fn BTreeSet::new_union -> r
    requires swf(lhs), swf(rhs), lawful::<T>(), (lhs.map.len + rhs.map.len) * 4 <= usize::MAX,
    ensures
        swf(r),
        forall|k: T| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(lhs), kcut(k)) || has_key(selems(rhs), kcut(k))),
        forall|k: T| #[trigger] m_get(selems(r), kcut(k)) == s_or(m_get(selems(lhs), kcut(k)), m_get(selems(rhs), kcut(k))),
@sub \bin lhs\b => in it__: vec_of(lhs)
@begin
    broadcast use axiom_yields_set;
    let ghost (a, b) = (selems(lhs), selems(rhs));
    proof {
        lemma_has::<T, Unit>(); lemma_mwf(lhs.map); lemma_mwf(rhs.map); lemma_units(a); lemma_units(b);
        lemma_get_ext(a, b); lemma_get_empty(a.take(0));
    }
@loop 0
    invariant
        it__.seq() == keys_of(a), 0 <= it__.index@ <= a.len(), sorted(a), sorted(b), lawful::<T>(),
        swf(rhs), selems(rhs).len() <= b.len() + it__.index@, a.len() + b.len() < usize::MAX,
        forall|x: T| #[trigger] m_get(selems(rhs), kcut(x)) == s_or(m_get(a.take(it__.index@), kcut(x)), m_get(b, kcut(x))),
@body 0
    proof {
        lemma_units(a); lemma_mwf(rhs.map); lemma_has::<T, Unit>();
        let e = a[it__.index@];
        lemma_get_take(a, it__.index@);
        lemma_put_unit(selems(rhs), e.0);
        lemma_get_ins(selems(rhs), e.0, e.1);
        lemma_get_same(selems(rhs));
        lemma_ins_sorted(selems(rhs), e.0, e.1);
    }
@past 0
    proof { lemma_has::<T, Unit>(); assert(a.take(a.len() as int) =~= a); }
#fn BTreeSet::new_sym_diff -> r
    requires swf(lhs), swf(rhs), lawful::<T>(), lhs.map.len + rhs.map.len <= usize::MAX,
    ensures
        swf(r),
        forall|k: T| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(lhs), kcut(k)) != has_key(selems(rhs), kcut(k))),
        forall|k: T| #[trigger] m_get(selems(r), kcut(k)) == s_xor(m_get(selems(lhs), kcut(k)), m_get(selems(rhs), kcut(k))),
@sub \bin rhs\b => in it__: vec_of(rhs)
@begin
    broadcast use axiom_yields_set;
    proof { lemma_has::<T, Unit>(); lemma_mwf(lhs.map); lemma_mwf(rhs.map); lemma_lawful_refl::<T>(); lemma_units(selems(lhs)); lemma_units(selems(rhs)); }
    let ghost (a0, b0) = (selems(lhs), selems(rhs));
@before for
    let ghost (a, b) = (selems(lhs), selems(rhs));
    proof { lemma_get_empty(b.take(0)); }
@loop 0
    invariant
        it__.seq() == keys_of(b), 0 <= it__.index@ <= b.len(), sorted(a), sorted(b), lawful::<T>(), lawful_q::<T, T>(),
        swf(lhs), selems(lhs).len() <= a.len() + it__.index@, a.len() + b.len() <= usize::MAX,
        forall|x: T| #[trigger] m_get(selems(lhs), kcut(x)) == s_xor(m_get(a, kcut(x)), m_get(b.take(it__.index@), kcut(x))),
@body 0
    proof {
        lemma_units(b); lemma_mwf(lhs.map); lemma_lawful_refl::<T>(); lemma_has::<T, Unit>();
        let e = b[it__.index@];
        let s = selems(lhs);
        lemma_get_take(b, it__.index@);
        lemma_get_rm(s, e.0);
        lemma_rm_ins(s, e.0, e.1);
        lemma_get_ins(s, e.0, e.1);
        lemma_get_same(s);
        lemma_rm_sorted(s, kcut(e.0));
        lemma_ins_sorted(s, e.0, e.1);
    }
@past 0
    proof { lemma_has::<T, Unit>(); assert(b.take(b.len() as int) =~= b); }
#fn BTreeSet::retain
    requires swf(*old(self)), lawful::<T>(), forall|k: &T| #[trigger] f.requires((k,)),
    ensures swf(*final(self)), kept_by(f, selems(*old(self)), selems(*final(self))),
@begin
    broadcast use {axiom_yields_set, axiom_yields_vec, lemma_sorted_empty};
    let ghost s0 = selems(*self);
    let ghost e = Seq::<(T, Unit)>::empty();
    proof {
        lemma_mwf(self.map); lemma_units(s0);
        assert forall|o: Seq<bool>| #![trigger is_part(f, keys_of(s0), o)] is_part(f, keys_of(s0), o) implies
            m_ext(e, units(picks(keys_of(s0), o, true))) == picks(s0, o, true) && answers(f, s0, o)
            && units(picks(keys_of(s0), o, true)).len() <= s0.len() by {
            lemma_units_picks(keys_of(s0), o);
            lemma_picks_any(s0, o);
            assert(e + picks(s0, o, true) =~= picks(s0, o, true));
            lemma_ext_sorted(e, picks(s0, o, true));
        }
    }
#fn BitAnd@BTreeSet::bitand -> r
    requires swf(*self), swf(*rhs), lawful::<K>(), self.map.len + rhs.map.len <= usize::MAX,
    ensures
        swf(r),
        forall|k: K| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(*self), kcut(k)) && has_key(selems(*rhs), kcut(k))),
#fn BitOr@BTreeSet::bitor -> r
    requires swf(*self), swf(*rhs), lawful::<K>(), (self.map.len + rhs.map.len) * 4 <= usize::MAX,
    ensures
        swf(r),
        forall|k: K| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(*self), kcut(k)) || has_key(selems(*rhs), kcut(k))),
#fn BitXor@BTreeSet::bitxor -> r
    requires swf(*self), swf(*rhs), lawful::<K>(), self.map.len + rhs.map.len <= usize::MAX,
    ensures
        swf(r),
        forall|k: K| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(*self), kcut(k)) != has_key(selems(*rhs), kcut(k))),
#fn Sub@BTreeSet::sub -> r
    requires swf(*self), swf(*rhs), lawful::<K>(), (self.map.len + rhs.map.len) * 4 <= usize::MAX,
    ensures
        swf(r),
        forall|k: K| #[trigger] has_key(selems(r), kcut(k)) == (has_key(selems(*self), kcut(k)) && !has_key(selems(*rhs), kcut(k))),
#fn BTreeSet::pop_first -> r +where=T:Ord
    requires swf(*old(self)), lawful::<T>(),
    ensures
        swf(*final(self)),
        r is None <==> selems(*old(self)).len() == 0,
        r is None ==> selems(*final(self)) == selems(*old(self)),
        r is Some ==> selems(*old(self)) == seq![(r->0, Unit)] + selems(*final(self)),
@closure 0 (e: (T, Unit)) -> (r: T)
    ensures r == e.0, e.1 == Unit,
#fn BTreeSet::range -> r +where=T:Ord
@ret 'q VMapped<Range<'q, T, Unit, N>, impl Fn((&'q T, &'q Unit)) -> &'q T>
    requires swf(*self), lawful_q::<T, Q>(), bfit(rlo::<Q, R>(range), rhi::<Q, R>(range)),
    ensures
        among(r.i.iter, sel(selems(*self), rsel::<T, Unit, Q, R>(range))),
        forall|p: (&'q T, &'q Unit), o: &'q T| r.f.ensures((p,), o) ==> o == p.0,
@sub \.map\((?=\|) => .vmap_it(
@closure 0 (p: (&'q T, &'q Unit)) -> (o: &'q T)
    ensures o == p.0,
#fn BTreeSet::pop_last -> r +where=T:Ord
    requires swf(*old(self)), lawful::<T>(),
    ensures
        swf(*final(self)),
        r is None <==> selems(*old(self)).len() == 0,
        r is None ==> selems(*final(self)) == selems(*old(self)),
        r is Some ==> selems(*old(self)) == selems(*final(self)).push((r->0, Unit)),
@closure 0 (e: (T, Unit)) -> (r: T)
    ensures r == e.0, e.1 == Unit,
#fn BTreeSet::remove -> r
    requires swf(*old(self)), lawful_q::<T, Q>(),
    ensures
        swf(*final(self)),
        selems(*final(self)) == m_rm(selems(*old(self)), qcut::<T, Q>(*value)),
        r == has_key(selems(*old(self)), qcut::<T, Q>(*value)),
#fn BTreeSet::take -> r
    requires swf(*old(self)), lawful_q::<T, Q>(),
    ensures
        swf(*final(self)),
        selems(*final(self)) == m_rm(selems(*old(self)), qcut::<T, Q>(*value)),
        match m_get(selems(*old(self)), qcut::<T, Q>(*value)) { None => r is None, Some(e) => r == Some(e.0) },
@begin
    proof {
        lemma_mwf(self.map); lemma_rm_sorted(selems(*self), qcut::<T, Q>(*value));
        lemma_qcut_mono::<T, Q>(*value);
        if self.map.root is Some { kok_shp(an(self.map.root->0), 1); }
    }
@closure 0 (n: &mut Node<T, Unit, N>) -> (r: Option<((T, Unit), IsUnderPop)>)
    requires okn::<N>(), shp(*old(n), 1), sorted(nels(*old(n))), lawful_q::<T, Q>(),
    ensures
        match r {
            Some(x) => {
                let t = qcut::<T, Q>(*value);
                &&& m_get(nels(*old(n)), t) == Some(x.0)
                &&& nels(*final(n)) == m_rm(nels(*old(n)), t)
                &&& rm_kept(*old(n), *final(n), x.1.0)
            },
            None => m_get(nels(*old(n)), qcut::<T, Q>(*value)) is None && nels(*final(n)) == nels(*old(n))
                && rm_kept(*old(n), *final(n), false) && final(n).elems.len() == old(n).elems.len(),
        },
@closure 1 (e: (T, Unit)) -> (r: T)
    ensures r == e.0, e.1 == Unit,
#fn BTreeSet::replace -> r
    requires swf(*old(self)), lawful::<T>(), old(self).map.len < usize::MAX,
    ensures
        swf(*final(self)),
        selems(*final(self)) == m_ins(selems(*old(self)), value, Unit),
        match m_get(selems(*old(self)), kcut(value)) { None => r is None, Some(e) => r == Some(e.0) },
@begin
    proof {
        lemma_lawful_refl::<T>(); lemma_mwf(self.map); lemma_rm_ins(selems(*self), value, Unit); lemma_rm_sorted(selems(*self), kcut(value));
        lemma_kcut_mono(value);
        if self.map.root is Some { kok_shp(an(self.map.root->0), 1); }
    }
@closure 0 (n: &mut Node<T, Unit, N>) -> (r: Option<((T, Unit), IsUnderPop)>)
    requires okn::<N>(), shp(*old(n), 1), sorted(nels(*old(n))), lawful_q::<T, T>(),
    ensures
        match r {
            Some(x) => {
                let t = kcut(value);
                &&& m_get(nels(*old(n)), t) == Some(x.0)
                &&& nels(*final(n)) == m_rm(nels(*old(n)), t)
                &&& rm_kept(*old(n), *final(n), x.1.0)
            },
            None => m_get(nels(*old(n)), kcut(value)) is None && nels(*final(n)) == nels(*old(n))
                && rm_kept(*old(n), *final(n), false) && final(n).elems.len() == old(n).elems.len(),
        },
@closure 1 (e: (T, Unit)) -> (r: T)
    ensures r == e.0, e.1 == Unit,
#fn BTreeSet::split_off -> r
    requires swf(*old(self)), lawful_q::<T, Q>(),
    ensures
        swf(*final(self)), swf(r),
        selems(*old(self)) == selems(*final(self)) + selems(r),
        below(selems(*final(self)), qcut::<T, Q>(*key)),
        selems(r).len() > 0 ==> !(qcut::<T, Q>(*key)(selems(r)[0].0) is Greater),
#fn Set@BTreeSet::insert_ -> r
    requires swf(*old(self)), lawful::<T>(), old(self).map.len < usize::MAX,
    ensures
        swf(*final(self)),
        selems(*final(self)) == m_ins(selems(*old(self)), value, Unit),
        r == !has_key(selems(*old(self)), kcut(value)),
#prop C09
#fn BTreeSet::iter -> r +where=T:Ord
    requires swf(*self),
    ensures over(r.iter.iter, selems(*self)),
#fn IntoIterator@BTreeSet::into_iter -> r +where=T:Ord +nth=1 +name=set_into_iter
    requires swf(self),
    ensures over(r.iter.iter, selems(self)),
#fn IntoIterator@BTreeSet::into_iter -> r +where=T:Ord +nth=0 +name=into_iter_ref
    requires swf(*self),
    ensures over(r.iter.iter, selems(*self)),
#fn Iterator@Iter::next -> r
    requires ready(old(self).iter.iter), makes(old(self).iter.iter.make_node_iter),
    ensures
        final(self).iter.iter.make_node_iter == old(self).iter.iter.make_node_iter,
        stepped(old(self).iter.iter, final(self).iter.iter, r is Some, (*(r->0), Unit), (*(r->0), Unit), true, true),
@closure 0 (e: (&'a T, &'a Unit)) -> (r: &'a T)
    ensures r == e.0,
#fn DoubleEndedIterator@Iter::next_back -> r
    requires ready(old(self).iter.iter), makes(old(self).iter.iter.make_node_iter),
    ensures
        final(self).iter.iter.make_node_iter == old(self).iter.iter.make_node_iter,
        stepped(old(self).iter.iter, final(self).iter.iter, r is Some, (*(r->0), Unit), (*(r->0), Unit), true, false),
@closure 0 (e: (&'a T, &'a Unit)) -> (r: &'a T)
    ensures r == e.0,
#fn Iterator@Iter::size_hint -> r
    ensures r.0 == self.iter.iter.len, r.1 == Some(self.iter.iter.len),
#fn ExactSizeIterator@Iter::len -> r
    ensures r == self.iter.iter.len,
#fn Iterator@IntoIter::next -> r
    requires ready(old(self).iter.iter), makes(old(self).iter.iter.make_node_iter),
    ensures nexts(old(self).iter.iter, final(self).iter.iter, (match r { Some(k) => Some((k, Unit)), None => None }), true),
@closure 0 (e: (T, Unit)) -> (r: T)
    ensures r == e.0, e.1 == Unit,
#fn DoubleEndedIterator@IntoIter::next_back -> r
    requires ready(old(self).iter.iter), makes(old(self).iter.iter.make_node_iter),
    ensures nexts(old(self).iter.iter, final(self).iter.iter, (match r { Some(k) => Some((k, Unit)), None => None }), false),
@closure 0 (e: (T, Unit)) -> (r: T)
    ensures r == e.0, e.1 == Unit,
#fn Iterator@IntoIter::size_hint -> r
    ensures r.0 == self.iter.iter.len, r.1 == Some(self.iter.iter.len),
#fn ExactSizeIterator@IntoIter::len -> r
    ensures r == self.iter.iter.len,
#raw
impl<'a, T, const N: usize> VIter for SetIter<'a, T, N> {
    type Item = &'a T;
    spec fn todo(&self) -> Seq<&'a T> { refs(flat(self.iter.iter.work@)) }
    #[verifier::prophetic]
    spec fn ok(&self) -> bool { ready(self.iter.iter) && makes(self.iter.iter.make_node_iter) }
    // forwards to the contract of the real `next`
    fn next(&mut self) -> (r: Option<&'a T>) {
        let ghost o = *self;
        let r = SetIter::<'a, T, N>::next(self);
        proof {
            match r {
                Some(k) => { assert(refs::<T>(seq![(*k, Unit)] + flat(self.iter.iter.work@)).skip(1) =~= refs(flat(self.iter.iter.work@))); },
                None => { lemma_ends(self.iter.iter.work@); },
            }
        }
        r
    }
}
// the lazy set operation P of two sets
spec fn lazy<'a, T: Ord, const P: u32, const N: usize>(i: SetOpIter<SetIter<'a, T, N>, P>, a: BTreeSet<T, N>, b: BTreeSet<T, N>) -> bool {
    &&& ups(i.pend())
    &&& forall|x: &'a T| #[trigger] mem(i.pend(), x) <==> in_op(P, has_key(selems(a), kcut(*x)), has_key(selems(b), kcut(*x)))
}
proof fn lemma_lazy<'a, T: Ord + 'a, const N: usize>(a: BTreeSet<T, N>, b: BTreeSet<T, N>, p: u32)
    requires swf(a), swf(b), lawful::<T>(),
    ensures is_op(set_op(refs::<T>(selems(a)), refs::<T>(selems(b)), p), refs::<T>(selems(a)), refs::<T>(selems(b)), p),
        forall|k: &'a T| #[trigger] mem(refs::<T>(selems(a)), k) == has_key(selems(a), kcut(*k)),
        forall|k: &'a T| #[trigger] mem(refs::<T>(selems(b)), k) == has_key(selems(b), kcut(*k)),
{
    lemma_mwf(a.map); lemma_mwf(b.map);
    lemma_refs::<T>(selems(a)); lemma_refs::<T>(selems(b));
    lemma_ref_lawful::<T>();
    lemma_op::<&'a T>(refs::<T>(selems(a)), refs::<T>(selems(b)), p);
}
proof fn lemma_disjoint<'a, T: Ord + 'a, const N: usize>(a: BTreeSet<T, N>, b: BTreeSet<T, N>)
    requires lawful::<T>(),
    ensures forall|i: SetOpIter<SetIter<'a, T, N>, 2>| #[trigger] lazy(i, a, b) ==>
        (i.pend().len() == 0) == !(exists|k: T| has_key(selems(a), kcut(k)) && has_key(selems(b), kcut(k))),
{
    assert(2u32 & 2 != 0 && 2u32 & 1 == 0 && 2u32 & 4 == 0) by (bit_vector);
    lemma_ref_lawful::<T>();
    assert forall|i: SetOpIter<SetIter<'a, T, N>, 2>| #[trigger] lazy(i, a, b) implies
        (i.pend().len() == 0) == !(exists|k: T| has_key(selems(a), kcut(k)) && has_key(selems(b), kcut(k))) by {
        if i.pend().len() > 0 {
            let x = i.pend()[0];
            law_flip(x, x);
            assert(eqv(i.pend()[0], x));
            assert(mem(i.pend(), x));
        }
        if exists|k: T| has_key(selems(a), kcut(k)) && has_key(selems(b), kcut(k)) {
            let k = choose|k: T| has_key(selems(a), kcut(k)) && has_key(selems(b), kcut(k));
            assert(mem(i.pend(), &k));
        }
    }
}
#prop C10
#item struct Difference +attr=verifier::reject_recursive_types(T) +attr=verifier::reject_recursive_types(N)
#item struct Intersection +attr=verifier::reject_recursive_types(T) +attr=verifier::reject_recursive_types(N)
#item struct Union +attr=verifier::reject_recursive_types(T) +attr=verifier::reject_recursive_types(N)
#item struct SymmetricDifference +attr=verifier::reject_recursive_types(T) +attr=verifier::reject_recursive_types(N)
#fn Difference::new -> r +where=T:Ord
    requires lhs.ok(), rhs.ok(),
    ensures r.iter.0.lhs.todo() == lhs.todo(), r.iter.0.rhs.todo() == rhs.todo(),
#fn Iterator@Difference::next -> r
    requires lawful::<T>(),
    ensures
        match r {
            Some(x) => old(self).iter.pend().len() > 0 && x == old(self).iter.pend()[0] && final(self).iter.pend() == old(self).iter.pend().skip(1),
            None => old(self).iter.pend().len() == 0 && final(self).iter.pend().len() == 0,
        },
@begin
    proof { lemma_ref_lawful::<T>(); }
#fn BTreeSet::difference -> r
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures lazy(r.iter, *self, *other),
@begin
    proof { lemma_lazy::<T, N>(*self, *other, 4u32); }
#fn Intersection::new -> r +where=T:Ord
    requires lhs.ok(), rhs.ok(),
    ensures r.iter.0.lhs.todo() == lhs.todo(), r.iter.0.rhs.todo() == rhs.todo(),
#fn Iterator@Intersection::next -> r
    requires lawful::<T>(),
    ensures
        match r {
            Some(x) => old(self).iter.pend().len() > 0 && x == old(self).iter.pend()[0] && final(self).iter.pend() == old(self).iter.pend().skip(1),
            None => old(self).iter.pend().len() == 0 && final(self).iter.pend().len() == 0,
        },
@begin
    proof { lemma_ref_lawful::<T>(); }
#fn BTreeSet::intersection -> r
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures lazy(r.iter, *self, *other),
@begin
    proof { lemma_lazy::<T, N>(*self, *other, 2u32); }
#fn Union::new -> r +where=T:Ord
    requires lhs.ok(), rhs.ok(),
    ensures r.iter.0.lhs.todo() == lhs.todo(), r.iter.0.rhs.todo() == rhs.todo(),
#fn Iterator@Union::next -> r
    requires lawful::<T>(),
    ensures
        match r {
            Some(x) => old(self).iter.pend().len() > 0 && x == old(self).iter.pend()[0] && final(self).iter.pend() == old(self).iter.pend().skip(1),
            None => old(self).iter.pend().len() == 0 && final(self).iter.pend().len() == 0,
        },
@begin
    proof { lemma_ref_lawful::<T>(); }
#fn BTreeSet::union -> r +where=T:Ord
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures lazy(r.iter, *self, *other),
@begin
    proof { lemma_lazy::<T, N>(*self, *other, 7u32); }
#fn SymmetricDifference::new -> r +where=T:Ord
    requires lhs.ok(), rhs.ok(),
    ensures r.iter.0.lhs.todo() == lhs.todo(), r.iter.0.rhs.todo() == rhs.todo(),
#fn Iterator@SymmetricDifference::next -> r
    requires lawful::<T>(),
    ensures
        match r {
            Some(x) => old(self).iter.pend().len() > 0 && x == old(self).iter.pend()[0] && final(self).iter.pend() == old(self).iter.pend().skip(1),
            None => old(self).iter.pend().len() == 0 && final(self).iter.pend().len() == 0,
        },
@begin
    proof { lemma_ref_lawful::<T>(); }
#fn BTreeSet::symmetric_difference -> r +where=T:Ord
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures lazy(r.iter, *self, *other),
@begin
    proof { lemma_lazy::<T, N>(*self, *other, 5u32); }
#prop C09
#fn BTreeSet::is_disjoint -> r
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures r == !(exists|k: T| has_key(selems(*self), kcut(k)) && has_key(selems(*other), kcut(k))),
@begin
    proof { lemma_disjoint::<T, N>(*self, *other); }
#raw
proof fn lemma_subset<'a, T: Ord + 'a, const N: usize>(a: BTreeSet<T, N>, b: BTreeSet<T, N>)
    requires lawful::<T>(), swf(a), swf(b),
    ensures
        forall|i: SetOpIter<SetIter<'a, T, N>, 4>| #[trigger] lazy(i, a, b) ==> (i.pend().len() == 0) == within(selems(a), selems(b)),
        selems(a).len() == 0 ==> within(selems(a), selems(b)),
        within(selems(a), selems(b)) ==> selems(a).len() <= selems(b).len(),
{
    assert(4u32 & 4 != 0 && 4u32 & 1 == 0 && 4u32 & 2 == 0) by (bit_vector);
    lemma_ref_lawful::<T>();
    lemma_mwf(a.map); lemma_mwf(b.map);
    assert forall|x: T| selems(a).len() == 0 implies !#[trigger] has_key(selems(a), kcut(x)) by { lemma_has_at(selems(a), x); }
    if within(selems(a), selems(b)) { lemma_within_each(selems(a), selems(b)); lemma_within_len(selems(a), selems(b)); }
    assert forall|i: SetOpIter<SetIter<'a, T, N>, 4>| #[trigger] lazy(i, a, b) implies (i.pend().len() == 0) == within(selems(a), selems(b)) by {
        if i.pend().len() > 0 {
            let x = i.pend()[0];
            law_flip(x, x);
            assert(eqv(i.pend()[0], x));
            assert(mem(i.pend(), x));
            assert(has_key(selems(a), kcut(*x)) && !has_key(selems(b), kcut(*x)));
        }
        if !within(selems(a), selems(b)) {
            let k = choose|k: T| has_key(selems(a), kcut(k)) && !#[trigger] has_key(selems(b), kcut(k));
            assert(mem(i.pend(), &k));
        }
    }
}
#fn BTreeSet::is_subset -> r
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures r == within(selems(*self), selems(*other)),
@begin
    proof { lemma_subset::<T, N>(*self, *other); lemma_mwf(self.map); lemma_mwf(other.map); }
#fn BTreeSet::is_superset -> r
    requires swf(*self), swf(*other), lawful::<T>(),
    ensures r == within(selems(*other), selems(*self)),
#prop C05 C09
#fn Extend@BTreeSet::extend +nth=1
    requires swf(*old(self)), lawful::<T>(), old(self).map.len + yields(iter).len() <= usize::MAX,
    ensures swf(*final(self)), selems(*final(self)) == m_ext(selems(*old(self)), units(yields(iter))),
@sub \bin iter\b => in it__: vec_of(iter)
@begin
    let ghost s0 = selems(*self);
    let ghost src = units(yields(iter));
    proof { lemma_mwf(self.map); }
@loop 0
    invariant
        it__.seq() == yields(iter), src == units(yields(iter)), 0 <= it__.index@ <= src.len(),
        swf(*self), lawful::<T>(), sorted(s0), s0.len() + src.len() <= usize::MAX,
        selems(*self) == m_ext(s0, src.take(it__.index@)),
@body 0
    proof {
        lemma_mwf(self.map);
        lemma_ext(s0, src.take(it__.index@));
        lemma_ext_step(s0, src, it__.index@);
    }
@past 0
    proof { assert(src.take(src.len() as int) =~= src); }
#fn Extend@BTreeSet::extend +nth=0 +name=extend_ref
    requires swf(*old(self)), lawful::<T>(), old(self).map.len + yields(iter).len() <= usize::MAX,
    ensures swf(*final(self)), selems(*final(self)) == m_ext(selems(*old(self)), units(copied(yields(iter)))),
@sub \bin iter\b => in it__: vec_of(iter)
@begin
    let ghost s0 = selems(*self);
    let ghost src = units(copied(yields(iter)));
    proof { lemma_mwf(self.map); }
@loop 0
    invariant
        it__.seq() == yields(iter), src == units(copied(yields(iter))), 0 <= it__.index@ <= src.len(),
        swf(*self), lawful::<T>(), sorted(s0), s0.len() + src.len() <= usize::MAX,
        selems(*self) == m_ext(s0, src.take(it__.index@)),
@body 0
    proof {
        lemma_mwf(self.map);
        lemma_ext(s0, src.take(it__.index@));
        lemma_ext_step(s0, src, it__.index@);
    }
@past 0
    proof { assert(src.take(src.len() as int) =~= src); }
#fn FromIterator@BTreeSet::from_iter -> r
    requires okn::<N>(), lawful::<T>(), yields(iter).len() <= usize::MAX,
    ensures swf(r), selems(r) == m_ext(Seq::<(T, Unit)>::empty(), units(yields(iter))),
@begin
    broadcast use lemma_sorted_empty;
#fn From@BTreeSet::from -> r
    requires okn::<N>(), lawful::<T>(),
    ensures swf(r), selems(r) == m_ext(Seq::<(T, Unit)>::empty(), units(value@)),
@sub (\w+)\.into_iter\(\) => vec_arr(\1)
@begin
    broadcast use axiom_yields_vec;
#include setcmp.inc
#prop C16 C09
#fn PartialEq@BTreeSet::eq -> r +where=T:Ord
    requires swf(*self), swf(*other),
    ensures r == seq_eq(refs::<T>(selems(*self)), refs::<T>(selems(*other))),
@begin
    proof { lemma_unit_eq(selems(*self), selems(*other)); }
#fn PartialOrd@BTreeSet::partial_cmp -> r +where=T:Ord
    requires swf(*self), swf(*other),
    ensures r == lex_pcmp(refs::<T>(selems(*self)), refs::<T>(selems(*other))),
@begin
    proof { lemma_unit_pcmp(selems(*self), selems(*other)); }
#fn Ord@BTreeSet::cmp -> r
    requires swf(*self), swf(*other),
    ensures r == lex_cmp(refs::<T>(selems(*self)), refs::<T>(selems(*other))),
@begin
    proof { lemma_unit_cmp(selems(*self), selems(*other)); }
#prop C16
#fn Hash@BTreeSet::hash +where=T:Ord
    requires swf(*self),
    ensures *final(state) == hash_keys(absorb(*old(state), self.map.len), selems(*self)),
@sub \.hash\( => .vhash(
@sub ?\bin self\.iter\(\) => in it__: vdrain(self.iter())
@begin
    let ghost (h0, src) = (absorb(*state, self.map.len), selems(*self));
@loop 0
    invariant
        it__.seq() == refs::<T>(src), 0 <= it__.index@ <= src.len(),
        *state == hash_keys(h0, src.take(it__.index@)),
@body 0
    proof {
        assert(src.take(it__.index@ + 1).drop_last() =~= src.take(it__.index@));
    }
@past 0
    proof { assert(src.take(src.len() as int) =~= src); }
