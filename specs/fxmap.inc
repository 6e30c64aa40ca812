#source src/btree/fixed.rs
#subst \bArc::make_mut\( => arc_make_mut(
#subst \b(?:std::)?(?:mem::)?replace\( => mem_replace(
#subst \.clone\(\) => .vclone()
#subst \bassert!\( => vassert!(
#subst \bassert_eq!\( => vassert_eq!(
#item struct BTreeMap +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V)
#prop C14
#fn Clone@BTreeMap::clone -> r +keeptrait
    ensures r == *self,
#raw
spec fn rels<K, V>(r: OptNodePtr<K, V>) -> Seq<(K, V)> {
    match r { None => Seq::empty(), Some(n) => nels(*n) }
}
spec fn mels<K, V>(m: BTreeMap<K, V>) -> Seq<(K, V)> { rels(m.root) }

spec fn mwf<K: Ord, V>(m: BTreeMap<K, V>) -> bool {
    &&& m.root is Some ==> shp(an(m.root->0), 1)
    &&& sorted(mels(m))
    &&& m.len == mels(m).len()
}
proof fn lemma_mwf<K: Ord, V>(m: BTreeMap<K, V>)
    requires mwf(m),
    ensures m.root is None <==> mels(m).len() == 0,
{
    if m.root is Some { nonempty(an(m.root->0)); }
}

// a node with an entry has a non-empty sequence
proof fn nonempty<K, V>(n: Node<K, V>)
    requires ez(n).len() > 0, fan(n),
    ensures nels(n).len() >= ez(n).len(),
{
    node(n);
    lemma_il_len(ksq(kz(n)), ez(n));
}
spec fn root_get<K: Ord, V>(n: Node<K, V>, t: Cut<K>) -> bool {
    shp(n, 0) && sorted(nels(n)) && mono(t) && lawful::<K>()
}

// every node with one entry
proof fn one_entry<K, V>()
    ensures
        forall|m: Node<K, V>| #![trigger nels(m)] #![trigger shp(m, 1)] sok(m) && ez(m).len() == 1 && kz(m).len() == 0 ==>
            nels(m) == seq![ez(m)[0]] && shp(m, 1),
        forall|m: Node<K, V>| #![trigger nels(m)] #![trigger shp(m, 1)] sok(m) && ez(m).len() == 1 && kz(m).len() == 2
            && shp(kd(m, 0), 5) && shp(kd(m, 1), 5) && nh(kd(m, 0)) == nh(kd(m, 1)) ==>
            nels(m) == cat(nels(kd(m, 0)), ez(m)[0], nels(kd(m, 1))) && shp(m, 1),
{
    assert forall|m: Node<K, V>| #![trigger nels(m)] #![trigger shp(m, 1)] sok(m) && ez(m).len() == 1 && kz(m).len() == 0 implies
            nels(m) == seq![ez(m)[0]] && shp(m, 1) by {
        node(m);
        shp_unfold(m, 1);
        assert(ez(m) =~= seq![ez(m)[0]]);
    }
    assert forall|m: Node<K, V>| #![trigger nels(m)] #![trigger shp(m, 1)] sok(m) && ez(m).len() == 1 && kz(m).len() == 2
            && shp(kd(m, 0), 5) && shp(kd(m, 1), 5) && nh(kd(m, 0)) == nh(kd(m, 1)) implies
            nels(m) == cat(nels(kd(m, 0)), ez(m)[0], nels(kd(m, 1))) && shp(m, 1) by {
        node(m);
        shp_unfold(m, 1);
        let (ks, es) = (ksq(kz(m)), ez(m));
        lemma_il_upd2(ks, es, 0, ks[0], es[0], ks[1]);
        lemma_end(ks, es);
        assert(nels(m) =~= cat(ks[0], es[0], ks[1]));
        assert(nh(kd(m, 0)) + 1 == nh(m));
        assert forall|j: int| 0 <= j < kz(m).len() implies shp(#[trigger] kd(m, j), 5) && nh(kd(m, j)) + 1 == nh(m) by {
            assert(j == 0 || j == 1);
        }
    }
}
// taking the only child of an empty root
proof fn root_pop<K, V>(n: Node<K, V>)
    requires kok(n), ez(n).len() <= 11,
    ensures
        ez(n).len() > 0 ==> shp(n, 1),
        ez(n).len() == 0 ==> {
            &&& kz(n).len() <= 1
            &&& kz(n).len() == 0 ==> nels(n) == Seq::<(K, V)>::empty()
            &&& kz(n).len() == 1 ==> nels(kd(n, 0)) == nels(n) && shp(kd(n, 0), 1)
        },
{
    kok_shp(n, 1);
    node(n);
    if ez(n).len() == 0 {
        if kz(n).len() == 0 {
            assert(nels(n) =~= Seq::<(K, V)>::empty());
        } else {
            lemma_end(ksq(kz(n)), ez(n));
            kok_shp(kd(n, 0), 5);
            kok_shp(kd(n, 0), 1);
            assert(nels(n) =~= nels(kd(n, 0)));
        }
    }
}

spec fn rm_post<K, V>(n: Node<K, V>, f: Node<K, V>, r: Option<((K, V), IsUnderPop)>) -> bool {
    match r {
        Some(x) => rm_kept(n, f, x.1.0) && nels(f).len() + 1 == nels(n).len(),
        None => rm_kept(n, f, false) && ez(f).len() == ez(n).len() && nels(f) == nels(n),
    }
}
#prop C14
#fn BTreeMap::new -> r
    ensures mels(r) == Seq::<(K, V)>::empty(), r.len == 0, r.root is None,
#fn BTreeMap::len -> r
    ensures r == self.len,
#fn BTreeMap::is_empty -> r
    ensures r == (self.len == 0),
#fn BTreeMap::clear
    ensures mels(*final(self)) == Seq::<(K, V)>::empty(), final(self).len == 0, final(self).root is None,
#fn BTreeMap::get -> r +where=K:Ord
    requires mwf(*self), lawful_q::<K, Q>(),
    ensures match m_get(mels(*self), qcut::<K, Q>(*key)) {
        None => r is None,
        Some(e) => r is Some && *(r->0) == e.1,
    },
@begin
    proof { lemma_idx_empty(Seq::<(K, V)>::empty(), qcut::<K, Q>(*key)); }
@closure 0 (n: &NodePtr<K, V>) -> (r: Option<(&K, &V)>)
    requires shp(**n, 1), sorted(nels(**n)), lawful_q::<K, Q>(),
    ensures
        match r {
            Some(e) => m_get(nels(**n), qcut::<K, Q>(*key)) == Some((*e.0, *e.1)),
            None => m_get(nels(**n), qcut::<K, Q>(*key)) is None,
        },
@closure 1 (kv: (&K, &V)) -> (r: &V)
    ensures r == kv.1,
#fn BTreeMap::get_mut -> r +where=K:Ord
    requires mwf(*old(self)), lawful_q::<K, Q>(),
    ensures
        r is Some <==> has_key(mels(*old(self)), qcut::<K, Q>(*key)),
        r is None ==> mels(*final(self)) == mels(*old(self)),
        r is Some ==> *(r->0) == (m_get(mels(*old(self)), qcut::<K, Q>(*key))->0).1
            && mels(*final(self)) == m_upd(mels(*old(self)), qcut::<K, Q>(*key), *final(r->0)),
        mwf(*final(self)), final(self).len == old(self).len,
@sub self\.root\s*\.as_mut\(\)\s*\.and_then\(\|(\w+)\| ([^|]*?)\)(\s*\})$ => match self.root.as_mut() { Some(\1) => \2, None => None }\3
@begin
    proof {
        let t = qcut::<K, Q>(*key);
        lemma_idx_empty(Seq::<(K, V)>::empty(), t);
        lemma_mwf(*self);
        if self.root is Some { kok_shp(an(self.root->0), 1); kok_shp(an(self.root->0), 0); }
        lemma_qcut_mono::<K, Q>(*key);
        lemma_idx(mels(*self), t);
        lemma_upd_sorted(mels(*self), t);
    }
#fn BTreeMap::insert -> r
    requires mwf(*old(self)), lawful::<K>(), old(self).len < usize::MAX,
    ensures
        mwf(*final(self)),
        mels(*final(self)) == m_ins(mels(*old(self)), key, val),
        r == val_of(m_get(mels(*old(self)), kcut(key))),
@begin
    proof {
        lemma_mwf(*self);
        lemma_ins_sorted(mels(*self), key, val);
        lemma_idx_empty(Seq::<(K, V)>::empty(), kcut(key));
        assert(m_ins(Seq::<(K, V)>::empty(), key, val) =~= seq![(key, val)]);
        one_entry::<K, V>();
        if self.root is Some { kok_shp(an(self.root->0), 1); kok_shp(an(self.root->0), 0); }
    }
#fn BTreeMap::rm_and_rebal -> r +where=K:Ord
    requires
        mwf(*old(self)),
        forall|n: &mut Node<K, V>| old(self).root is Some && *n == an(old(self).root->0) ==> #[trigger] remover.requires((n,)),
        forall|n: &mut Node<K, V>, x: Option<((K, V), IsUnderPop)>| old(self).root is Some && *n == an(old(self).root->0) && #[trigger] remover.ensures((n,), x) ==>
            rm_post(*n, *final(n), x) && sorted(nels(*final(n))),
    ensures
        mwf(*final(self)),
        old(self).root is None ==> r is None && mels(*final(self)) == mels(*old(self)),
        old(self).root is Some ==> exists|n: &mut Node<K, V>, x: Option<((K, V), IsUnderPop)>| {
            &&& *n == an(old(self).root->0)
            &&& #[trigger] remover.ensures((n,), x)
            &&& mels(*final(self)) == nels(*final(n))
            &&& (x is None ==> r is None)
            &&& (x is Some ==> r == Some((x->0).0))
        },
@begin
    proof {
        lemma_mwf(*self);
        assert forall|m: Node<K, V>| #[trigger] shp(m, 1) == (kok(m) && 1 <= ez(m).len() <= 11) by { kok_shp(m, 1); }
    }
@sub ?self\.root = (\w+)\.pop_child\(\); => let c__ = \1.pop_child(); proof { assert(dropok(*\1)); } self.root = c__;
@before ?if is_under_pop
    proof { root_pop(*n); }
#fn BTreeMap::remove -> r +where=K:Ord
    requires mwf(*old(self)), lawful_q::<K, Q>(),
    ensures
        mwf(*final(self)),
        mels(*final(self)) == m_rm(mels(*old(self)), qcut::<K, Q>(*key)),
        r == val_of(m_get(mels(*old(self)), qcut::<K, Q>(*key))),
@begin
    proof {
        lemma_mwf(*self);
        lemma_qcut_mono::<K, Q>(*key);
        lemma_rm_sorted(mels(*self), qcut::<K, Q>(*key));
        if self.root is Some { kok_shp(an(self.root->0), 1); }
    }
@closure 0 (n: &mut Node<K, V>) -> (r: Option<((K, V), IsUnderPop)>)
    requires shp(*old(n), 1), sorted(nels(*old(n))), lawful_q::<K, Q>(),
    ensures
        match r {
            Some(x) => {
                let t = qcut::<K, Q>(*key);
                &&& m_get(nels(*old(n)), t) == Some(x.0)
                &&& nels(*final(n)) == m_rm(nels(*old(n)), t)
                &&& rm_kept(*old(n), *final(n), x.1.0)
            },
            None => m_get(nels(*old(n)), qcut::<K, Q>(*key)) is None && nels(*final(n)) == nels(*old(n))
                && rm_kept(*old(n), *final(n), false) && ez(*final(n)).len() == ez(*old(n)).len(),
        },
@closure 1 (e: (K, V)) -> (r: V)
    ensures r == e.1,
#fn Extend@BTreeMap::extend
    requires mwf(*old(self)), lawful::<K>(), old(self).len + yields(iter).len() <= usize::MAX,
    ensures mwf(*final(self)), mels(*final(self)) == m_ext(mels(*old(self)), yields(iter)),
@sub \bin iter\b => in it__: vec_of(iter)
@begin
    let ghost s0 = mels(*self);
    let ghost src = yields(iter);
    proof { lemma_mwf(*self); }
@loop 0
    invariant
        it__.seq() == src, 0 <= it__.index@ <= src.len(),
        mwf(*self), lawful::<K>(), sorted(s0), s0.len() + src.len() <= usize::MAX,
        mels(*self) == m_ext(s0, src.take(it__.index@)),
@body 0
    proof {
        lemma_ext(s0, src.take(it__.index@));
        lemma_ext_step(s0, src, it__.index@);
    }
@past 0
    proof { assert(src.take(src.len() as int) =~= src); }
#fn FromIterator@BTreeMap::from_iter -> r
    requires lawful::<K>(), yields(iter).len() <= usize::MAX,
    ensures mwf(r), mels(r) == m_ext(Seq::<(K, V)>::empty(), yields(iter)),
@begin
    broadcast use lemma_sorted_empty;
