#prop C14
#fn max_occupancy -> r
    requires min_occ < 0x1000_0000,
    ensures r == 2 * min_occ + 1,
#const MIN_OCCUPANCY ->
    ensures MIN_OCCUPANCY == 5,
#const MAX_OCCUPANCY ->
    ensures MAX_OCCUPANCY == 11,
#const MAX_KIDS ->
    ensures MAX_KIDS == 12,
#item type Elems
#item type Kids
#item struct Node
#item type NodePtr
#item type OptNodePtr
#item enum InsertResult
#item struct IsUnderPop
#raw
#raw
// entries and children of a node
spec fn ez<K, V>(n: Node<K, V>) -> Seq<(K, V)> { vs(n.elems) }
spec fn kz<K, V>(n: Node<K, V>) -> Seq<NodePtr<K, V>> {
    match n.kids { Some(b) => if vok(*b) { vk(*b) } else { Seq::empty() }, None => Seq::empty() }
}

proof fn kid_dec<K, V>(n: Node<K, V>, i: int)
    requires 0 <= i < kz(n).len(),
    ensures decreases_to!(n => *kz(n)[i]),
{
    let s = n.kids->0.keys.s@;
    assert(decreases_to!(s => s[i]));
    assert(kz(n)[i] == s[i]->0);
}
#[via_fn]
proof fn nh_dec<K, V>(n: Node<K, V>) {
    if kz(n).len() != 0 { kid_dec(n, 0); }
}
#[via_fn]
proof fn kels_dec<K, V>(n: Node<K, V>) {
    assert forall|i: int| 0 <= i < kz(n).len() implies decreases_to!(n => *#[trigger] kz(n)[i]) by { kid_dec(n, i); }
}
spec fn nh<K, V>(n: Node<K, V>) -> nat
    decreases n via nh_dec::<K, V>
{
    if kz(n).len() == 0 { 1 } else { 1 + nh(*kz(n)[0]) }
}

spec fn nels<K, V>(n: Node<K, V>) -> Seq<(K, V)>
    decreases n, 1nat
{
    il(kels(n), ez(n))
}

spec fn kels<K, V>(n: Node<K, V>) -> Seq<Seq<(K, V)>>
    decreases n, 0nat via kels_dec::<K, V>
{
    Seq::new(kz(n).len() as nat, |i: int| if 0 <= i < kz(n).len() { nels(*kz(n)[i]) } else { Seq::empty() })
}

// the node behind a pointer
spec fn an<K, V>(a: NodePtr<K, V>) -> Node<K, V> { *a }

// child i
spec fn kd<K, V>(n: Node<K, V>, i: int) -> Node<K, V> { *kz(n)[i] }

// the sequences of the children
spec fn ksq<K, V>(s: Seq<Arc<Node<K, V>>>) -> Seq<Seq<(K, V)>> {
    Seq::new(s.len(), |i: int| nels(*s[i]))
}

// the slots of a node: entries and children without gaps, a branch has children
spec fn sok<K, V>(n: Node<K, V>) -> bool {
    &&& vok(n.elems)
    &&& n.kids is Some ==> vok(*n.kids->0) && n.kids->0.len > 0
}

spec fn fan<K, V>(n: Node<K, V>) -> bool {
    sok(n) && (kz(n).len() == 0 || kz(n).len() == ez(n).len() + 1)
}

// well-formed with at least `lo` entries at the root
spec fn shp<K, V>(n: Node<K, V>, lo: int) -> bool
    decreases n
{
    &&& lo <= ez(n).len() <= 11
    &&& fan(n)
    &&& forall|i: int| 0 <= i < kz(n).len() ==> shp(*#[trigger] kz(n)[i], 5) && nh(*kz(n)[i]) + 1 == nh(n)
}

// every child but the one at x is well-formed, that one may be short
spec fn shpx<K, V>(n: Node<K, V>, x: int, lo: int) -> bool {
    &&& fan(n)
    &&& forall|i: int| 0 <= i < kz(n).len() ==>
            shp(#[trigger] kd(n, i), if i == x { lo } else { 5 }) && nh(kd(n, i)) + 1 == nh(n)
}

proof fn node<K, V>(n: Node<K, V>)
    ensures
        nels(n) == il(ksq(kz(n)), ez(n)),
        nh(n) == (if kz(n).len() == 0 { 1 } else { 1 + nh(kd(n, 0)) }),
        nh(n) >= 1,
        kz(n).len() == 0 ==> nels(n) == ez(n),
{
    assert(ksq(kz(n)) =~= kels(n));
    if kz(n).len() == 0 {
        assert(ksq(kz(n)) =~= Seq::<Seq<(K, V)>>::empty());
        lemma_il_leaf(ez(n));
    }
}

proof fn shp_unfold<K, V>(n: Node<K, V>, lo: int)
    ensures
        shp(n, lo) == {
            &&& lo <= ez(n).len() <= 11
            &&& fan(n)
            &&& forall|i: int| 0 <= i < kz(n).len() ==> shp(#[trigger] kd(n, i), 5) && nh(kd(n, i)) + 1 == nh(n)
        },
{
    assert(forall|i: int| #![trigger kz(n)[i]] #![trigger kd(n, i)] 0 <= i < kz(n).len() ==> *kz(n)[i] == kd(n, i));
    if shp(n, lo) {
        assert forall|i: int| 0 <= i < kz(n).len() implies shp(#[trigger] kd(n, i), 5) && nh(kd(n, i)) + 1 == nh(n) by {
            assert(shp(*kz(n)[i], 5));
        }
    }
}

// what a lookup finds once the scan of the entries has stopped at i
proof fn get_facts<K: Ord, V>(n: Node<K, V>, i: int, t: Cut<K>)
    requires
        sorted(nels(n)), mono(t), lawful::<K>(), shp(n, 0),
        0 <= i <= ez(n).len(),
        0 < i ==> t(ez(n)[i - 1].0) is Greater,
        i == ez(n).len() || !(t(ez(n)[i].0) is Greater),
    ensures
        i < ez(n).len() && t(ez(n)[i].0) is Equal ==> m_get(nels(n), t) == Some(ez(n)[i]),
        i == ez(n).len() || t(ez(n)[i].0) is Less ==> {
            &&& kz(n).len() == 0 ==> m_get(nels(n), t) is None
            &&& kz(n).len() > 0 ==> m_get(nels(n), t) == m_get(nels(kd(n, i)), t) && sorted(nels(kd(n, i)))
                    && shp(kd(n, i), 0) && nh(kd(n, i)) < nh(n)
        },
{
    node(n);
    let (ks, es) = (ksq(kz(n)), ez(n));
    if i < es.len() && t(es[i].0) is Equal {
        lemma_found(ks, es, i, t);
    } else {
        lemma_descend(ks, es, i, t);
        if kz(n).len() == 0 {
            lemma_idx_empty(kat(ks, i), t);
        } else {
            let kk = kd(n, i);
            shp_unfold(n, 0);
            shp_unfold(kk, 5);
            shp_unfold(kk, 0);
            assert(kat(ks, i) == nels(kk));
        }
    }
}
// f is n with child i replaced
spec fn kid_upd<K, V>(n: Node<K, V>, f: Node<K, V>, i: int) -> bool {
    0 <= i < kz(n).len() && kz(f) == kz(n).update(i, kz(f)[i]) && ez(f) == ez(n) && sok(f)
}

proof fn upd_facts<K, V>(n: Node<K, V>, f: Node<K, V>, i: int)
    requires kid_upd(n, f, i), fan(n),
    ensures
        nels(n) == pre(ksq(kz(n)), ez(n), i) + nels(kd(n, i)) + suf(ksq(kz(n)), ez(n), i),
        nels(f) == pre(ksq(kz(n)), ez(n), i) + nels(kd(f, i)) + suf(ksq(kz(n)), ez(n), i),
        nh(kd(f, i)) == nh(kd(n, i)) ==> nh(f) == nh(n),
        forall|lo: int| shp(n, lo) && nh(kd(f, i)) == nh(kd(n, i)) && shp(kd(f, i), 5) ==> #[trigger] shp(f, lo),
{
    node(n);
    node(f);
    lemma_il(ksq(kz(n)), ez(n), i);
    lemma_il_upd(ksq(kz(n)), ez(n), i, nels(kd(f, i)));
    assert(ksq(kz(f)) =~= ksq(kz(n)).update(i, nels(kd(f, i))));
    if nh(kd(f, i)) == nh(kd(n, i)) {
        assert(nh(kd(f, 0)) == nh(kd(n, 0)));
        assert forall|lo: int| shp(n, lo) && shp(kd(f, i), 5) implies #[trigger] shp(f, lo) by {
            shp_unfold(n, lo);
            shp_unfold(f, lo);
            assert forall|j: int| 0 <= j < kz(f).len() implies shp(#[trigger] kd(f, j), 5) && nh(kd(f, j)) + 1 == nh(f) by {
                assert(kz(f)[j] == kz(f)[j] && kz(n)[j] == kz(n)[j]);
                assert(nh(kd(n, j)) + 1 == nh(n));
                if j == i { assert(kd(f, j) == kd(f, i)); }
            }
        }
    }
}

// what a mutable lookup leaves behind
proof fn getm_found<K: Ord, V>(n: Node<K, V>, f: Node<K, V>, i: int, t: Cut<K>)
    requires
        sorted(nels(n)), mono(t), lawful::<K>(),
        0 <= i < ez(n).len(),
        0 < i ==> t(ez(n)[i - 1].0) is Greater,
        t(ez(n)[i].0) is Equal,
        kz(f) == kz(n), ez(f) == ez(n).update(i, ez(f)[i]), sok(f),
    ensures
        nels(f) == nels(n).update(idx(nels(n), t), ez(f)[i]),
        nh(f) == nh(n),
        forall|lo: int| shp(n, lo) ==> #[trigger] shp(f, lo),
{
    node(n);
    node(f);
    let (ks, es) = (ksq(kz(n)), ez(n));
    lemma_found(ks, es, i, t);
    let e = ez(f)[i];
    let (w, x) = (pre(ks, es, i) + kat(ks, i), kat(ks, i + 1) + suf(ks, es, i + 1));
    lemma_scan(ks, es, i, t);
    lemma_below_plus(pre(ks, es, i), kat(ks, i), t);
    lemma_above_plus(kat(ks, i + 1), suf(ks, es, i + 1), t);
    lemma_split(w, x, es[i], t);
    let e2 = ez(f);
    lemma_il(ks, e2, i);
    lemma_pre_suf(ks, e2, i);
    lemma_pre_eq(ks, es, ks, e2, i);
    lemma_suf_eq(ks, es, i + 1, ks, e2, i + 1);
    assert(nels(f) =~= cat(w, e, x));
    assert(cat(w, es[i], x).update(w.len() as int, e) =~= cat(w, e, x));
    assert forall|lo: int| shp(n, lo) implies #[trigger] shp(f, lo) by {
        shp_same_kids(n, f, lo);
    }
}

proof fn shp_same_kids<K, V>(n: Node<K, V>, f: Node<K, V>, lo: int)
    requires sok(f), shp(n, lo), kz(f) == kz(n), ez(f).len() == ez(n).len(),
    ensures shp(f, lo), nh(f) == nh(n),
{
    node(n);
    node(f);
    shp_unfold(n, lo);
    shp_unfold(f, lo);
    assert(nh(kd(f, 0)) == nh(kd(n, 0)));
    assert forall|j: int| 0 <= j < kz(f).len() implies shp(#[trigger] kd(f, j), 5) && nh(kd(f, j)) + 1 == nh(f) by {
        assert(kd(f, j) == kd(n, j));
    }
}

proof fn getm_desc<K: Ord, V>(n: Node<K, V>, f: Node<K, V>, i: int, t: Cut<K>)
    requires
        sorted(nels(n)), mono(t), lawful::<K>(), fan(n),
        0 <= i <= ez(n).len(),
        0 < i ==> t(ez(n)[i - 1].0) is Greater,
        i == ez(n).len() || t(ez(n)[i].0) is Less,
        kid_upd(n, f, i),
    ensures
        nels(kd(n, i)) == nels(kd(f, i)) ==> nels(f) == nels(n),
        forall|e: (K, V)| has_key(nels(kd(n, i)), t) && nels(kd(f, i)) == #[trigger] nels(kd(n, i)).update(idx(nels(kd(n, i)), t), e) ==>
                    nels(f) == nels(n).update(idx(nels(n), t), e),
{
    let (ks, es) = (ksq(kz(n)), ez(n));
    node(n);
    upd_facts(n, f, i);
    let (a, b) = (nels(kd(n, i)), nels(kd(f, i)));
    let (p, q) = (pre(ks, es, i), suf(ks, es, i));
    assert(kat(ks, i) == a);
    lemma_scan(ks, es, i, t);
    lemma_mid(p, a, q, t);
    assert forall|e: (K, V)| has_key(a, t) && b == #[trigger] a.update(idx(a, t), e) implies
                nels(f) == nels(n).update(idx(nels(n), t), e) by {
        assert(p + a.update(idx(a, t), e) + q =~= (p + a + q).update(p.len() + idx(a, t), e));
    }
}

proof fn getm_facts<K: Ord, V>(n: Node<K, V>, f: Node<K, V>, i: int, t: Cut<K>)
    requires
        sorted(nels(n)), mono(t), lawful::<K>(), shp(n, 0),
        0 <= i <= ez(n).len(),
        0 < i ==> t(ez(n)[i - 1].0) is Greater,
        i == ez(n).len() || !(t(ez(n)[i].0) is Greater),
    ensures
        i < ez(n).len() && t(ez(n)[i].0) is Equal && sok(f) && kz(f) == kz(n) && ez(f) == ez(n).update(i, ez(f)[i]) ==> {
            &&& nels(f) == nels(n).update(idx(nels(n), t), ez(f)[i])
            &&& nh(f) == nh(n)
            &&& forall|lo: int| shp(n, lo) ==> #[trigger] shp(f, lo)
        },
        (i == ez(n).len() || t(ez(n)[i].0) is Less) && kid_upd(n, f, i)
            && nh(kd(f, i)) == nh(kd(n, i)) && (shp(kd(n, i), 5) ==> shp(kd(f, i), 5)) ==> {
            &&& nh(f) == nh(n)
            &&& forall|lo: int| shp(n, lo) ==> #[trigger] shp(f, lo)
            &&& nels(kd(n, i)) == nels(kd(f, i)) ==> nels(f) == nels(n)
            &&& forall|e: (K, V)| has_key(nels(kd(n, i)), t) && nels(kd(f, i)) == #[trigger] nels(kd(n, i)).update(idx(nels(kd(n, i)), t), e) ==>
                    nels(f) == nels(n).update(idx(nels(n), t), e)
        },
{
    shp_unfold(n, 0);
    if i < ez(n).len() && t(ez(n)[i].0) is Equal && sok(f) && kz(f) == kz(n) && ez(f) == ez(n).update(i, ez(f)[i]) {
        getm_found(n, f, i, t);
    }
    if (i == ez(n).len() || t(ez(n)[i].0) is Less) && kid_upd(n, f, i)
        && nh(kd(f, i)) == nh(kd(n, i)) && (shp(kd(n, i), 5) ==> shp(kd(f, i), 5)) {
        upd_facts(n, f, i);
        assert(shp(kd(n, i), 5));
        getm_desc(n, f, i, t);
    }
}
// all children well-formed, whatever the number of entries
spec fn kok<K, V>(n: Node<K, V>) -> bool { shpx(n, -1, 0) }

proof fn kok_shp<K, V>(n: Node<K, V>, lo: int)
    ensures shp(n, lo) == (kok(n) && lo <= ez(n).len() <= 11),
{
    shp_unfold(n, lo);
}


// child `at` is one entry short, all else is well-formed
spec fn short<K, V>(n: Node<K, V>, at: int) -> bool {
    &&& 0 <= at < kz(n).len()
    &&& ez(n).len() >= 1
    &&& shpx(n, at, 4)
    &&& ez(kd(n, at)).len() == 4
}

// entries move between the neighbours i and i+1 through the separator
spec fn rotated<K, V>(n: Node<K, V>, f: Node<K, V>, i: int) -> bool {
    let (l, r, l2, r2) = (kd(n, i), kd(n, i + 1), kd(f, i), kd(f, i + 1));
    &&& 0 <= i < ez(n).len() && kz(n).len() == ez(n).len() + 1
    &&& ez(f) =~= ez(n).update(i, ez(f)[i])
    &&& kz(f) =~= kz(n).update(i, kz(f)[i]).update(i + 1, kz(f)[i + 1])
    &&& ez(l) + seq![ez(n)[i]] + ez(r) =~= ez(l2) + seq![ez(f)[i]] + ez(r2)
    &&& kz(l) + kz(r) =~= kz(l2) + kz(r2)
    &&& sok(f) && fan(l2) && fan(r2)
    &&& (kz(l2).len() == 0) == (kz(r2).len() == 0)
}

// the children of a node of height h
spec fn qok<K, V>(ks: Seq<Arc<Node<K, V>>>, h: nat) -> bool {
    forall|j: int| 0 <= j < ks.len() ==> shp(*#[trigger] ks[j], 5) && nh(*ks[j]) + 1 == h
}

proof fn qok_kok<K, V>(n: Node<K, V>, h: nat)
    ensures
        kok(n) ==> qok(kz(n), nh(n)),
        fan(n) && kz(n).len() > 0 && qok(kz(n), h) ==> kok(n) && nh(n) == h,
        kz(n).len() == 0 && fan(n) ==> kok(n) && nh(n) == 1,
{
    node(n);
    assert(forall|j: int| #![trigger kz(n)[j]] #![trigger kd(n, j)] *kz(n)[j] == kd(n, j));
}

// the contents and children of two neighbours laid side by side
proof fn join_facts<K, V>(l: Node<K, V>, x: (K, V), r: Node<K, V>)
    requires fan(l), fan(r), (kz(l).len() == 0) == (kz(r).len() == 0),
    ensures
        il(ksq(kz(l) + kz(r)), ez(l) + seq![x] + ez(r)) == cat(nels(l), x, nels(r)),
        kok(l) && kok(r) && nh(l) == nh(r) ==> qok(kz(l) + kz(r), nh(l)),
{
    node(l);
    node(r);
    lemma_il_join(ksq(kz(l)), ez(l), x, ksq(kz(r)), ez(r));
    assert(ksq(kz(l) + kz(r)) =~= ksq(kz(l)) + ksq(kz(r)));
    qok_kok(l, 0);
    qok_kok(r, 0);
}

proof fn rot_facts<K, V>(n: Node<K, V>, f: Node<K, V>, i: int, x: int)
    requires
        rotated(n, f, i), shpx(n, x, 4), x == i || x == i + 1,
        5 <= ez(kd(f, i)).len() <= 11,
        5 <= ez(kd(f, i + 1)).len() <= 11,
    ensures
        nels(f) == nels(n), kok(f), nh(f) == nh(n),
{
    let (l, r, l2, r2) = (kd(n, i), kd(n, i + 1), kd(f, i), kd(f, i + 1));
    node(n);
    node(f);
    let (ks, es) = (ksq(kz(n)), ez(n));
    lemma_il_upd2(ks, es, i, nels(l2), ez(f)[i], nels(r2));
    assert(ksq(kz(f)) =~= ks.update(i, nels(l2)).update(i + 1, nels(r2)));
    nbr_facts(n, i, x);
    join_facts(l, ez(n)[i], r);
    join_facts(l2, ez(f)[i], r2);
    assert(ks[i] == nels(l) && ks[i + 1] == nels(r));
    let q = kz(l) + kz(r);
    let h = nh(l);
    assert(q =~= kz(l2) + kz(r2));
    assert(qok(kz(l2), h)) by {
        assert forall|j: int| 0 <= j < kz(l2).len() implies shp(*#[trigger] kz(l2)[j], 5) && nh(*kz(l2)[j]) + 1 == h by {
            assert((kz(l2) + kz(r2))[j] == kz(l2)[j]);
            assert(q[j] == kz(l2)[j]);
        }
    }
    assert(qok(kz(r2), h)) by {
        assert forall|j: int| 0 <= j < kz(r2).len() implies shp(*#[trigger] kz(r2)[j], 5) && nh(*kz(r2)[j]) + 1 == h by {
            assert((kz(l2) + kz(r2))[kz(l2).len() + j] == kz(r2)[j]);
            assert(q[kz(l2).len() + j] == kz(r2)[j]);
        }
    }
    qok_kok(l, h);
    qok_kok(l2, h);
    qok_kok(r2, h);
    assert(q.len() == kz(l).len() + kz(r).len() && q.len() == kz(l2).len() + kz(r2).len());
    kok_shp(l2, 5);
    kok_shp(r2, 5);
    assert(nh(f) == nh(n)) by {
        if i == 0 { assert(kd(f, 0) == l2); } else { assert(kd(f, 0) == kd(n, 0)); }
    }
    assert forall|j: int| 0 <= j < kz(f).len() implies shp(#[trigger] kd(f, j), 5) && nh(kd(f, j)) + 1 == nh(f) by {
        if j != i && j != i + 1 { assert(kd(f, j) == kd(n, j)); }
    }
}

// two neighbouring children, one of which may be short
proof fn nbr_facts<K, V>(n: Node<K, V>, i: int, x: int)
    requires shpx(n, x, 4), x == i || x == i + 1, 0 <= i < ez(n).len(), kz(n).len() > 0,
    ensures
        kok(kd(n, i)), kok(kd(n, i + 1)),
        fan(kd(n, i)), fan(kd(n, i + 1)),
        nh(kd(n, i)) == nh(kd(n, i + 1)),
        nh(kd(n, i)) + 1 == nh(n),
        (kz(kd(n, i)).len() == 0) == (kz(kd(n, i + 1)).len() == 0),
        i != x ==> 5 <= ez(kd(n, i)).len() <= 11,
        i + 1 != x ==> 5 <= ez(kd(n, i + 1)).len() <= 11,
        4 <= ez(kd(n, i)).len() <= 11,
        4 <= ez(kd(n, i + 1)).len() <= 11,
{
    let (l, r) = (kd(n, i), kd(n, i + 1));
    kok_shp(l, if i == x { 4 } else { 5 });
    kok_shp(r, if i + 1 == x { 4 } else { 5 });
    same_height_kids(l, r);
}

// nodes of the same height are both leaves or both branches
proof fn same_height_kids<K, V>(l: Node<K, V>, r: Node<K, V>)
    requires nh(l) == nh(r),
    ensures (kz(l).len() == 0) == (kz(r).len() == 0),
{
    node(l);
    node(r);
    if kz(l).len() > 0 { node(kd(l, 0)); }
    if kz(r).len() > 0 { node(kd(r, 0)); }
}

// the neighbours i and i+1 and the separator made into one child
spec fn merged<K, V>(n: Node<K, V>, f: Node<K, V>, i: int) -> bool {
    let (l, r, m) = (kd(n, i), kd(n, i + 1), kd(f, i));
    &&& 0 <= i < ez(n).len() && kz(n).len() == ez(n).len() + 1
    &&& ez(f) =~= ez(n).remove(i)
    &&& kz(f) =~= kz(n).remove(i).update(i, kz(f)[i])
    &&& ez(m) =~= ez(l) + seq![ez(n)[i]] + ez(r)
    &&& kz(m) =~= kz(l) + kz(r)
    &&& sok(f) && sok(m)
}

proof fn merge_facts<K, V>(n: Node<K, V>, f: Node<K, V>, i: int, x: int)
    requires
        merged(n, f, i), shpx(n, x, 4), x == i || x == i + 1,
        5 <= ez(kd(f, i)).len() <= 11,
    ensures
        nels(f) == nels(n), kok(f), nh(f) == nh(n),
{
    let (l, r, m) = (kd(n, i), kd(n, i + 1), kd(f, i));
    node(n);
    node(f);
    node(m);
    let (ks, es) = (ksq(kz(n)), ez(n));
    lemma_il_merge(ks, es, i, nels(m));
    assert(ksq(kz(f)) =~= ks.remove(i).update(i, nels(m)));
    nbr_facts(n, i, x);
    join_facts(l, ez(n)[i], r);
    assert(ks[i] == nels(l) && ks[i + 1] == nels(r));
    assert(ez(m) == ez(l) + seq![ez(n)[i]] + ez(r));
    assert(kz(m) == kz(l) + kz(r));
    qok_kok(m, nh(l));
    qok_kok(l, nh(l));
    kok_shp(m, 5);
    assert(nh(f) == nh(n)) by {
        if i == 0 { assert(kd(f, 0) == m); } else { assert(kd(f, 0) == kd(n, 0)); }
    }
    assert forall|j: int| 0 <= j < kz(f).len() implies shp(#[trigger] kd(f, j), 5) && nh(kd(f, j)) + 1 == nh(f) by {
        if j < i { assert(kd(f, j) == kd(n, j)); }
        else if j > i { assert(kd(f, j) == kd(n, j + 1)); }
    }
}
// the scan stopped at i, the key is there
proof fn ins_found<K: Ord, V>(n: Node<K, V>, f: Node<K, V>, i: int, k: K, v: V)
    requires
        sorted(nels(n)), lawful::<K>(),
        0 <= i < ez(n).len(),
        0 < i ==> kcut(k)(ez(n)[i - 1].0) is Greater,
        kcut(k)(ez(n)[i].0) is Equal,
    ensures
        m_get(nels(n), kcut(k)) == Some(ez(n)[i]),
        sok(f) && kz(f) == kz(n) && ez(f) =~= ez(n).update(i, (k, v)) ==> {
            &&& nels(f) == m_ins(nels(n), k, v)
            &&& nh(f) == nh(n)
            &&& forall|lo: int| shp(n, lo) ==> #[trigger] shp(f, lo)
        },
{
    node(n);
    node(f);
    lemma_kcut_mono(k);
    lemma_found(ksq(kz(n)), ez(n), i, kcut(k));
    lemma_found_ins(ksq(kz(n)), ez(n), i, k, v);
    if sok(f) && kz(f) == kz(n) && ez(f) =~= ez(n).update(i, (k, v)) {
        if kz(n).len() > 0 { assert(kd(n, 0) == kd(f, 0)); }
        assert forall|lo: int| shp(n, lo) implies #[trigger] shp(f, lo) by { shp_same_kids(n, f, lo); }
    }
}

// the scan stopped at i, below the key there
proof fn ins_desc<K: Ord, V>(n: Node<K, V>, i: int, k: K, v: V)
    requires
        sorted(nels(n)), lawful::<K>(), fan(n),
        0 <= i <= ez(n).len(),
        0 < i ==> kcut(k)(ez(n)[i - 1].0) is Greater,
        i == ez(n).len() || kcut(k)(ez(n)[i].0) is Less,
    ensures
        kz(n).len() > 0 ==> {
            &&& sorted(nels(kd(n, i)))
            &&& m_get(nels(n), kcut(k)) == m_get(nels(kd(n, i)), kcut(k))
            &&& m_ins(nels(n), k, v) == pre(ksq(kz(n)), ez(n), i) + m_ins(nels(kd(n, i)), k, v) + suf(ksq(kz(n)), ez(n), i)
        },
        kz(n).len() == 0 ==> {
            &&& m_get(nels(n), kcut(k)) is None
            &&& m_ins(nels(n), k, v) == ez(n).insert(i, (k, v))
        },
{
    node(n);
    let (ks, es) = (ksq(kz(n)), ez(n));
    lemma_descend_ins(ks, es, i, k, v);
    if kz(n).len() == 0 {
        assert(ks =~= Seq::<Seq<(K, V)>>::empty());
        lemma_idx_empty(kat(ks, i), kcut(k));
        lemma_leaf_pre(es, i);
        lemma_suf_leaf(es, i);
        assert(m_ins(kat(ks, i), k, v) =~= seq![(k, v)]);
        assert(es.take(i) + seq![(k, v)] + es.skip(i) =~= es.insert(i, (k, v)));
    } else {
        assert(kat(ks, i) == nels(kd(n, i)));
    }
}

// a child's split is taken up: m has child i replaced, an entry x and a child c come before it
spec fn upk<K, V>(m: Node<K, V>, i: int, c: Arc<Node<K, V>>) -> Seq<Arc<Node<K, V>>> { kz(m).insert(i, c) }
proof fn ins_up<K: Ord, V>(n: Node<K, V>, m: Node<K, V>, i: int, c: Arc<Node<K, V>>, x: (K, V))
    requires
        kok(n), kid_upd(n, m, i),
        shp(*c, 5), shp(kd(m, i), 5), nh(*c) == nh(kd(n, i)), nh(kd(m, i)) == nh(kd(n, i)),
    ensures
        il(ksq(upk(m, i, c)), ez(m).insert(i, x)) == pre(ksq(kz(n)), ez(n), i) + cat(nels(*c), x, nels(kd(m, i))) + suf(ksq(kz(n)), ez(n), i),
        qok(upk(m, i, c), nh(n)),
{
    upd_facts(n, m, i);
    node(n);
    node(m);
    let (ks, es) = (ksq(kz(n)), ez(n));
    let k1 = ksq(kz(m));
    let u = upk(m, i, c);
    lemma_il_ins(k1, es, i, nels(an(c)), x);
    assert(ksq(u) =~= k1.insert(i, nels(an(c))));
    assert(kat(k1, i) == nels(kd(m, i)));
    assert forall|j: int| 0 <= j < i implies kat(ks, j) == #[trigger] kat(k1, j) by { }
    lemma_pre_eq(ks, es, k1, es, i);
    assert forall|j: int| i < j <= es.len() implies kat(ks, j) == #[trigger] kat(k1, j - i + i) by { }
    lemma_suf_eq(ks, es, i, k1, es, i);
    assert(nh(kd(n, i)) + 1 == nh(n));
    assert forall|j: int| 0 <= j < u.len() implies shp(*#[trigger] u[j], 5) && nh(*u[j]) + 1 == nh(n) by {
        if j < i { assert(u[j] == kz(n)[j]); assert(nh(kd(n, j)) + 1 == nh(n)); }
        else if j == i + 1 { assert(*u[j] == kd(m, i)); }
        else if j > i + 1 { assert(u[j] == kz(n)[j - 1]); assert(nh(kd(n, j - 1)) + 1 == nh(n)); }
    }
}

// a node made of the children and entries of a well-formed node
proof fn q_node<K, V>(f: Node<K, V>, h: nat)
    requires fan(f), kz(f).len() > 0 ==> qok(kz(f), h), kz(f).len() == 0 ==> h == 1,
    ensures kok(f), nh(f) == h, nels(f) == il(ksq(kz(f)), ez(f)),
{
    node(f);
    qok_kok(f, h);
}

// a, x, b side by side
proof fn q_split<K, V>(a: Node<K, V>, x: (K, V), b: Node<K, V>, ks: Seq<NodePtr<K, V>>, es: Seq<(K, V)>, h: nat)
    requires
        fan(a), fan(b), (kz(a).len() == 0) == (kz(b).len() == 0),
        ez(a) + seq![x] + ez(b) == es, kz(a) + kz(b) == ks,
        ks.len() > 0 ==> qok(ks, h), ks.len() == 0 ==> h == 1,
    ensures
        kok(a), kok(b), nh(a) == h, nh(b) == h,
        cat(nels(a), x, nels(b)) == il(ksq(ks), es),
{
    let m = kz(a).len() as int;
    assert(forall|j: int| #![trigger kz(a)[j]] 0 <= j < m ==> kz(a)[j] == ks[j]);
    assert(forall|j: int| #![trigger kz(b)[j]] 0 <= j < kz(b).len() ==> kz(b)[j] == ks[m + j]);
    q_node(a, h);
    q_node(b, h);
    join_facts(a, x, b);
}

// leaves
proof fn ins_leaf<K: Ord, V>(n: Node<K, V>)
    requires kz(n).len() == 0,
    ensures ksq(kz(n)) == Seq::<Seq<(K, V)>>::empty(), forall|es: Seq<(K, V)>| #[trigger] il(ksq(kz(n)), es) == es,
{
    assert(ksq(kz(n)) =~= Seq::<Seq<(K, V)>>::empty());
    assert forall|es: Seq<(K, V)>| #[trigger] il(ksq(kz(n)), es) == es by { lemma_il_leaf(es); }
}

// m is n with child i changed by a removal
spec fn step<K, V>(n: Node<K, V>, m: Node<K, V>, i: int) -> bool {
    &&& kid_upd(n, m, i)
    &&& nh(kd(m, i)) == nh(kd(n, i))
    &&& kok(kd(m, i))
    &&& 4 <= ez(kd(m, i)).len() <= 11
}

proof fn step_facts<K, V>(n: Node<K, V>, m: Node<K, V>, i: int)
    requires shp(n, 1), step(n, m, i),
    ensures
        nels(n) == pre(ksq(kz(n)), ez(n), i) + nels(kd(n, i)) + suf(ksq(kz(n)), ez(n), i),
        nels(m) == pre(ksq(kz(n)), ez(n), i) + nels(kd(m, i)) + suf(ksq(kz(n)), ez(n), i),
        nh(m) == nh(n),
        ez(kd(m, i)).len() < 5 ==> short(m, i),
        ez(kd(m, i)).len() >= 5 ==> kok(m),
{
    shp_unfold(n, 1);
    upd_facts(n, m, i);
    let lo = if ez(kd(m, i)).len() < 5 { 4 } else { 5 };
    kok_shp(kd(m, i), lo);
    assert(nh(kd(n, i)) + 1 == nh(n));
    assert forall|j: int| 0 <= j < kz(m).len() implies shp(#[trigger] kd(m, j), if j == i { lo } else { 5 }) && nh(kd(m, j)) + 1 == nh(m) by {
        if j != i { assert(kd(m, j) == kd(n, j)); }
    }
    if lo == 5 { assert(kok(m)); } else { assert(shpx(m, i, 4)); }
}

// whatever a removal from child i leaves
proof fn steps<K, V>(n: Node<K, V>, i: int)
    requires shp(n, 1), 0 <= i < kz(n).len(),
    ensures
        nels(n) == pre(ksq(kz(n)), ez(n), i) + nels(kd(n, i)) + suf(ksq(kz(n)), ez(n), i),
        shp(kd(n, i), 1), shp(kd(n, i), 5), nh(kd(n, i)) < nh(n), 5 <= ez(kd(n, i)).len() <= 11,
        forall|m: Node<K, V>| #![trigger short(m, i)] #![trigger nels(m)] #![trigger kok(m)]
            step(n, m, i) ==> {
                &&& nels(m) == pre(ksq(kz(n)), ez(n), i) + nels(kd(m, i)) + suf(ksq(kz(n)), ez(n), i)
                &&& nh(m) == nh(n)
                &&& ez(kd(m, i)).len() < 5 ==> short(m, i)
                &&& ez(kd(m, i)).len() >= 5 ==> kok(m)
            },
{
    shp_unfold(n, 1);
    kok_shp(kd(n, i), 5);
    kok_shp(kd(n, i), 1);
    assert forall|m: Node<K, V>| #![trigger short(m, i)] #![trigger nels(m)] #![trigger kok(m)] step(n, m, i) implies {
                &&& nels(m) == pre(ksq(kz(n)), ez(n), i) + nels(kd(m, i)) + suf(ksq(kz(n)), ez(n), i)
                &&& nh(m) == nh(n)
                &&& ez(kd(m, i)).len() < 5 ==> short(m, i)
                &&& ez(kd(m, i)).len() >= 5 ==> kok(m)
            } by { step_facts(n, m, i); }
    assert(kz(n) =~= kz(n).update(i, kz(n)[i]));
    upd_facts(n, n, i);
}

// what a removal from a node keeps
spec fn rm_kept<K, V>(n: Node<K, V>, f: Node<K, V>, u: bool) -> bool {
    &&& kok(f)
    &&& nh(f) == nh(n)
    &&& ez(n).len() - 1 <= ez(f).len() <= ez(n).len()
    &&& u ==> ez(f).len() < 5
    &&& !u ==> ez(f).len() >= 5 || ez(f).len() == ez(n).len()
}

proof fn leaf_rm<K, V>(n: Node<K, V>)
    requires kz(n).len() == 0,
    ensures
        nels(n) == ez(n),
        forall|m: Node<K, V>| #![trigger kok(m)] #![trigger nels(m)] sok(m) && kz(m) == kz(n) ==> nels(m) == ez(m) && kok(m) && nh(m) == nh(n),
{
    node(n);
    assert forall|m: Node<K, V>| #![trigger kok(m)] #![trigger nels(m)] sok(m) && kz(m) == kz(n) implies nels(m) == ez(m) && kok(m) && nh(m) == nh(n) by { node(m); }
}

proof fn first_facts<K, V>(n: Node<K, V>)
    requires shp(n, 1),
    ensures
        kz(n).len() == 0 ==> nels(n).len() > 0,
        kz(n).len() > 0 ==> {
            let b = suf(ksq(kz(n)), ez(n), 0);
            let l = kz(n).len() - 1;
            let a = pre(ksq(kz(n)), ez(n), l);
            &&& l == ez(n).len()
            &&& nels(n) == nels(kd(n, 0)) + b
            &&& nels(n) == a + nels(kd(n, l))
            &&& forall|m: Node<K, V>| #![trigger nels(m)] step(n, m, 0) ==> nels(m) == nels(kd(m, 0)) + b
            &&& forall|m: Node<K, V>| #![trigger nels(m)] step(n, m, l) ==> nels(m) == a + nels(kd(m, l))
        },
{
    node(n);
    shp_unfold(n, 1);
    if kz(n).len() > 0 {
        let (ks, es) = (ksq(kz(n)), ez(n));
        let l = kz(n).len() - 1;
        steps(n, 0);
        steps(n, l);
        lemma_end(ks, es);
        let (a, b) = (pre(ks, es, l), suf(ks, es, 0));
        assert(nels(n) =~= nels(kd(n, 0)) + b);
        assert(nels(n) =~= a + nels(kd(n, l)));
        assert forall|m: Node<K, V>| #![trigger nels(m)] step(n, m, 0) implies nels(m) == nels(kd(m, 0)) + b by {
            assert(nels(m) =~= nels(kd(m, 0)) + b);
        }
        assert forall|m: Node<K, V>| #![trigger nels(m)] step(n, m, l) implies nels(m) == a + nels(kd(m, l)) by {
            assert(nels(m) =~= a + nels(kd(m, l)));
        }
    }
}
// m is n with child i changed by a removal and entry i replaced
spec fn step2<K, V>(n: Node<K, V>, m: Node<K, V>, i: int) -> bool {
    &&& 0 <= i < ez(n).len() && kz(n).len() > 0
    &&& kz(m) == kz(n).update(i, kz(m)[i])
    &&& ez(m) == ez(n).update(i, ez(m)[i])
    &&& sok(m)
    &&& nh(kd(m, i)) == nh(kd(n, i))
    &&& kok(kd(m, i))
    &&& 4 <= ez(kd(m, i)).len() <= 11
}

proof fn step2_facts<K, V>(n: Node<K, V>, m: Node<K, V>, i: int)
    requires shp(n, 1), step2(n, m, i),
    ensures
        nels(n) == pre(ksq(kz(n)), ez(n), i) + (nels(kd(n, i)) + seq![ez(n)[i]] + nels(kd(n, i + 1))) + suf(ksq(kz(n)), ez(n), i + 1),
        nels(m) == pre(ksq(kz(n)), ez(n), i) + (nels(kd(m, i)) + seq![ez(m)[i]] + nels(kd(n, i + 1))) + suf(ksq(kz(n)), ez(n), i + 1),
        nh(m) == nh(n),
        ez(kd(m, i)).len() < 5 ==> short(m, i),
        ez(kd(m, i)).len() >= 5 ==> kok(m),
{
    shp_unfold(n, 1);
    node(n);
    node(m);
    let (ks, es) = (ksq(kz(n)), ez(n));
    lemma_il_upd2(ks, es, i, nels(kd(m, i)), ez(m)[i], nels(kd(n, i + 1)));
    assert(ksq(kz(m)) =~= ks.update(i, nels(kd(m, i))).update(i + 1, nels(kd(n, i + 1))));
    let lo = if ez(kd(m, i)).len() < 5 { 4 } else { 5 };
    kok_shp(kd(m, i), lo);
    assert(nh(kd(n, i)) + 1 == nh(n));
    assert(nh(m) == nh(n)) by { if i != 0 { assert(kd(m, 0) == kd(n, 0)); } }
    assert forall|j: int| 0 <= j < kz(m).len() implies shp(#[trigger] kd(m, j), if j == i { lo } else { 5 }) && nh(kd(m, j)) + 1 == nh(m) by {
        if j != i { assert(kd(m, j) == kd(n, j)); }
    }
    if lo == 5 { assert(kok(m)); } else { assert(shpx(m, i, 4)); }
}

proof fn rm_found_m<K: Ord, V>(n: Node<K, V>, m: Node<K, V>, i: int, t: Cut<K>)
    requires
        shp(n, 1), step2(n, m, i),
        m_rm(nels(n), t) == pre(ksq(kz(n)), ez(n), i) + kat(ksq(kz(n)), i) + (kat(ksq(kz(n)), i + 1) + suf(ksq(kz(n)), ez(n), i + 1)),
    ensures
        nels(kd(n, i)).len() > 0 && nels(kd(m, i)) == nels(kd(n, i)).drop_last() && ez(m)[i] == nels(kd(n, i)).last() ==> nels(m) == m_rm(nels(n), t),
        nh(m) == nh(n),
        ez(kd(m, i)).len() < 5 ==> short(m, i),
        ez(kd(m, i)).len() >= 5 ==> kok(m),
{
    step2_facts(n, m, i);
    let (ks, es) = (ksq(kz(n)), ez(n));
    let (c, c2) = (nels(kd(n, i)), nels(kd(m, i)));
    if c.len() > 0 && c2 == c.drop_last() && ez(m)[i] == c.last() {
        assert(kz(n).len() == ez(n).len() + 1) by { shp_unfold(n, 1); }
        assert(kat(ks, i) == c && kat(ks, i + 1) == nels(kd(n, i + 1)));
        lemma_give_last(pre(ks, es, i), c, nels(kd(n, i + 1)), suf(ks, es, i + 1));
    }
}

// the scan stopped at i, the key is there
proof fn rm_found<K: Ord, V>(n: Node<K, V>, i: int, t: Cut<K>)
    requires
        shp(n, 1), sorted(nels(n)), mono(t), lawful::<K>(),
        0 <= i < ez(n).len(),
        0 < i ==> t(ez(n)[i - 1].0) is Greater,
        t(ez(n)[i].0) is Equal,
    ensures
        m_get(nels(n), t) == Some(ez(n)[i]),
        kz(n).len() == 0 ==> m_rm(nels(n), t) == ez(n).remove(i),
        kz(n).len() > 0 ==> {
            &&& shp(kd(n, i), 1) && shp(kd(n, i), 5) && nh(kd(n, i)) < nh(n)
            &&& 5 <= ez(kd(n, i)).len() <= 11
            &&& forall|m: Node<K, V>| #![trigger short(m, i)] #![trigger nels(m)] #![trigger kok(m)]
                step2(n, m, i) ==> {
                    &&& nels(kd(n, i)).len() > 0 && nels(kd(m, i)) == nels(kd(n, i)).drop_last() && ez(m)[i] == nels(kd(n, i)).last() ==> nels(m) == m_rm(nels(n), t)
                    &&& nh(m) == nh(n)
                    &&& ez(kd(m, i)).len() < 5 ==> short(m, i)
                    &&& ez(kd(m, i)).len() >= 5 ==> kok(m)
                }
        },
{
    node(n);
    shp_unfold(n, 1);
    let (ks, es) = (ksq(kz(n)), ez(n));
    lemma_found(ks, es, i, t);
    if kz(n).len() == 0 {
        assert(ks =~= Seq::<Seq<(K, V)>>::empty());
        lemma_leaf_pre(es, i);
        lemma_suf_leaf(es, i + 1);
        assert(es.take(i) + kat(ks, i) + (kat(ks, i + 1) + es.skip(i + 1)) =~= es.remove(i));
    } else {
        steps(n, i);
        assert forall|m: Node<K, V>| #![trigger short(m, i)] #![trigger nels(m)] #![trigger kok(m)] step2(n, m, i) implies {
                    &&& nels(kd(n, i)).len() > 0 && nels(kd(m, i)) == nels(kd(n, i)).drop_last() && ez(m)[i] == nels(kd(n, i)).last() ==> nels(m) == m_rm(nels(n), t)
                    &&& nh(m) == nh(n)
                    &&& ez(kd(m, i)).len() < 5 ==> short(m, i)
                    &&& ez(kd(m, i)).len() >= 5 ==> kok(m)
                } by {
            rm_found_m(n, m, i, t);
        }
    }
}

// the scan stopped at i, before the entry there
proof fn rm_desc<K: Ord, V>(n: Node<K, V>, i: int, t: Cut<K>)
    requires
        shp(n, 1), sorted(nels(n)), mono(t), lawful::<K>(),
        0 <= i <= ez(n).len(),
        0 < i ==> t(ez(n)[i - 1].0) is Greater,
        i == ez(n).len() || t(ez(n)[i].0) is Less,
    ensures
        kz(n).len() == 0 ==> m_get(nels(n), t) is None,
        kz(n).len() > 0 ==> {
            &&& kz(n).len() == ez(n).len() + 1
            &&& sorted(nels(kd(n, i)))
            &&& m_get(nels(n), t) == m_get(nels(kd(n, i)), t)
            &&& shp(kd(n, i), 1) && shp(kd(n, i), 5) && nh(kd(n, i)) < nh(n)
            &&& 5 <= ez(kd(n, i)).len() <= 11
            &&& forall|m: Node<K, V>| #![trigger short(m, i)] #![trigger nels(m)] #![trigger kok(m)]
                step(n, m, i) ==> {
                    &&& nels(kd(m, i)) == m_rm(nels(kd(n, i)), t) ==> nels(m) == m_rm(nels(n), t)
                    &&& nels(kd(m, i)) == nels(kd(n, i)) ==> nels(m) == nels(n)
                    &&& nh(m) == nh(n)
                    &&& ez(kd(m, i)).len() < 5 ==> short(m, i)
                    &&& ez(kd(m, i)).len() >= 5 ==> kok(m)
                }
        },
{
    node(n);
    shp_unfold(n, 1);
    let (ks, es) = (ksq(kz(n)), ez(n));
    lemma_descend(ks, es, i, t);
    if kz(n).len() == 0 {
        lemma_idx_empty(kat(ks, i), t);
    } else {
        assert(kat(ks, i) == nels(kd(n, i)));
        steps(n, i);
    }
}

#raw
// entry j is somewhere after child i
proof fn suf_at<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int, j: int) -> (q: int)
    requires 0 <= i <= j < es.len(),
    ensures 0 <= q < suf(ks, es, i).len(), suf(ks, es, i)[q] == es[j], i < j ==> q > 0,
    decreases j - i
{
    lemma_pre_suf(ks, es, i);
    if i == j { 0 } else {
        let q = suf_at(ks, es, i + 1, j);
        let p = seq![es[i]] + kat(ks, i + 1);
        assert(suf(ks, es, i) == p + suf(ks, es, i + 1));
        p.len() + q
    }
}
// the entries of a node are sorted
proof fn lemma_vup<K: Ord, V>(n: Node<K, V>, t: Cut<K>)
    requires sorted(nels(n)), mono(t), lawful::<K>(), sok(n),
    ensures vup(vk(n.elems), t),
{
    node(n);
    let (ks, es) = (ksq(kz(n)), ez(n));
    let k = vk(n.elems);
    reveal(mono);
    assert forall|i: int, j: int| 0 <= i < j < k.len() implies (!(t(#[trigger] k[i]) is Greater) ==> t(#[trigger] k[j]) is Less) by {
        lemma_il(ks, es, i);
        let q = suf_at(ks, es, i, j);
        let q0 = suf_at(ks, es, i, i);
        lemma_pre_suf(ks, es, i);
        let b = (pre(ks, es, i) + kat(ks, i)).len() as int;
        let s = nels(n);
        assert(suf(ks, es, i)[0] == es[i]);
        assert(s[b] == es[i] && s[b + q] == es[j]);
        reveal(sorted);
        assert(lt(s[b].0, s[b + q].0));
        assert(k[i] == es[i].0 && k[j] == es[j].0);
    }
}
spec fn sr(r: Result<usize, usize>) -> int { match r { Ok(i) => i as int, Err(i) => i as int } }
// every node but the root: at least five entries
proof fn shp_low<K, V>(n: Node<K, V>)
    requires shp(n, 5),
    ensures shp(n, 1), shp(n, 0),
{
    shp_unfold(n, 5);
    shp_unfold(n, 1);
    shp_unfold(n, 0);
}
// what follows from the result of a search
proof fn get_at<K: Ord, V>(n: Node<K, V>, r: Result<usize, usize>, t: Cut<K>)
    requires
        sorted(nels(n)), mono(t), lawful::<K>(), shp(n, 1),
        match r {
            Ok(i) => i < n.elems.len && t(vk(n.elems)[i as int]) is Equal,
            Err(i) => i <= n.elems.len && (0 < i ==> t(vk(n.elems)[i - 1]) is Greater) && (i < n.elems.len ==> t(vk(n.elems)[i as int]) is Less),
        },
    ensures
        0 <= sr(r) <= ez(n).len(), kz(n).len() > 0 ==> sr(r) < kz(n).len(),
        0 < sr(r) ==> t(ez(n)[sr(r) - 1].0) is Greater,
        r is Ok ==> sr(r) < ez(n).len() && t(ez(n)[sr(r)].0) is Equal && m_get(nels(n), t) == Some(ez(n)[sr(r)]),
        r is Err ==> {
            &&& sr(r) == ez(n).len() || t(ez(n)[sr(r)].0) is Less
            &&& kz(n).len() == 0 ==> m_get(nels(n), t) is None
            &&& kz(n).len() > 0 ==> m_get(nels(n), t) == m_get(nels(kd(n, sr(r))), t) && sorted(nels(kd(n, sr(r))))
                    && shp(kd(n, sr(r)), 1) && shp(kd(n, sr(r)), 5) && shp(kd(n, sr(r)), 0) && nh(kd(n, sr(r))) < nh(n)
        },
{
    shp_unfold(n, 1);
    shp_unfold(n, 0);
    let i = sr(r);
    lemma_vup(n, t);
    let k = vk(n.elems);
    if r is Ok && i > 0 {
        assert(!(t(k[i]) is Less));
        assert(t(k[i - 1]) is Greater);
    }
    if i > 0 { assert(ez(n)[i - 1].0 == k[i - 1]); }
    if i < k.len() { assert(ez(n)[i].0 == k[i]); }
    get_facts(n, i, t);
    if kz(n).len() > 0 { assert(shp(kd(n, i), 5)); shp_low(kd(n, i)); }
}
// the blanket `impl<T> Borrow<T> for T` is the only `Borrow<K> for K`
broadcast axiom fn axiom_bor_self<K>(k: K)
    ensures #[trigger] bor::<K, K>(k) == k;
proof fn lemma_self_q<K: Ord>(k: K)
    requires lawful::<K>(),
    ensures lawful_q::<K, K>(), qcut::<K, K>(k) == kcut(k),
{
    broadcast use axiom_bor_self;
    reveal(bor_laws);
    assert(qcut::<K, K>(k) =~= kcut(k));
}
#prop C14
#fn Node::new -> r
    ensures sok(r), ez(r) == Seq::<(K, V)>::empty(), kz(r) == Seq::<NodePtr<K, V>>::empty(), r.kids is None, r.elems.len == 0,
@tail
    proof { assert(ez(__r) =~= Seq::<(K, V)>::empty()); }
#fn Node::new_leaf -> r
    ensures sok(r), ez(r) == seq![kv], kz(r) == Seq::<NodePtr<K, V>>::empty(), r.kids is None,
@tail
    proof { assert(ez(__r) =~= seq![kv]); }
#fn Node::new_branch -> r
    ensures sok(r), ez(r) == seq![kv], kz(r) == seq![lhs, rhs],
@tail
    proof { assert(vs(*__r.kids->0) =~= seq![(lhs, ()), (rhs, ())]); assert(kz(__r) =~= seq![lhs, rhs]); }
#fn Node::kids -> r
    requires sok(*self),
    ensures match r { Some(ks) => self.kids is Some && ks@ == kz(*self) && kz(*self).len() > 0, None => self.kids is None && kz(*self).len() == 0 },
@sub (\S+)\.map\(\|(\w+)\|\s*(.*)\) => match \1 { Some(\2) => Some(\3), None => None }
#fn Node::kids_mut -> r
    requires sok(*old(self)),
    ensures
        final(self).elems == old(self).elems,
        sok(*final(self)),
        match r {
            Some(ks) => ks@ == kz(*old(self)) && kz(*old(self)).len() > 0 && final(ks)@.len() == ks@.len() && kz(*final(self)) == final(ks)@,
            None => kz(*old(self)).len() == 0 && *final(self) == *old(self),
        },
@sub (\S+)\.map\(\|(\w+)\|\s*(.*)\) => match \1 { Some(\2) => Some(\3), None => None }
#fn Node::child -> r
    requires sok(*self),
    ensures r is Some <==> i < kz(*self).len(), r is Some ==> *(r->0) == kz(*self)[i as int],
@sub (\S+)\.and_then\(\|(\w+)\|\s*(\w+)\.get\((\w+)\)\) => match \1 { Some(\2) => \3.vget(\4), None => None }
#fn Node::child_mut -> r
    requires sok(*old(self)),
    ensures
        final(self).elems == old(self).elems,
        sok(*final(self)),
        match r {
            Some(x) => i < kz(*old(self)).len() && *x == kz(*old(self))[i as int]
                && kz(*final(self)) == kz(*old(self)).update(i as int, *final(x)),
            None => i >= kz(*old(self)).len() && kz(*final(self)) == kz(*old(self)),
        },
@sub (\S+)\.and_then\(\|(\w+)\|\s*(\w+)\.get_mut\((\w+)\)\) => match \1 { Some(\2) => \3.vget_mut(\4), None => None }
#fn Node::last_child_mut -> r
    requires sok(*old(self)),
    ensures
        final(self).elems == old(self).elems,
        sok(*final(self)),
        match r {
            Some(x) => kz(*old(self)).len() > 0 && *x == kz(*old(self)).last()
                && kz(*final(self)) == kz(*old(self)).update(kz(*old(self)).len() - 1, *final(x)),
            None => kz(*old(self)).len() == 0 && kz(*final(self)) == kz(*old(self)),
        },
@sub \.get_mut\( => .vget_mut(
#fn Node::pop_child -> r
    requires sok(*old(self)),
    ensures
        final(self).elems == old(self).elems,
        match r {
            Some(c) => kz(*old(self)).len() > 0 && c == kz(*old(self)).last() && final(self).kids is Some
                && vok(*final(self).kids->0) && kz(*final(self)) == kz(*old(self)).drop_last(),
            None => kz(*old(self)).len() == 0 && *final(self) == *old(self),
        },
@sub (\S+)\.map\(\|(\w+)\|\s*(.*)\) => match \1 { Some(\2) => Some(\3), None => None }
#fn Node::key -> r
    requires vok(self.elems), i < self.elems.len,
    ensures *r == ez(*self)[i as int].0,
#fn Node::key_mut -> r
    requires vok(old(self).elems), i < old(self).elems.len,
    ensures
        *r == ez(*old(self))[i as int].0,
        ez(*final(self)) =~= ez(*old(self)).update(i as int, (*final(r), ez(*old(self))[i as int].1)),
        final(self).kids == old(self).kids, vok(final(self).elems),
@sub &mut ([\w.()]+)\[(\w+)\] => vat_mut(\1, \2)
#fn Node::val -> r
    requires vok(self.elems), i < self.elems.len,
    ensures *r == ez(*self)[i as int].1,
#fn Node::val_mut -> r
    requires vok(old(self).elems), i < old(self).elems.len,
    ensures
        *r == ez(*old(self))[i as int].1,
        ez(*final(self)) =~= ez(*old(self)).update(i as int, (ez(*old(self))[i as int].0, *final(r))),
        final(self).kids == old(self).kids, vok(final(self).elems),
@sub &mut ([\w.()]+)\[(\w+)\] => vat_mut(\1, \2)
#fn Node::is_empty -> r
    ensures r == (ez(*self).len() == 0),
#raw
#[verifier::external]
impl<K: Clone, V: Clone> Clone for Node<K, V> { fn clone(&self) -> Self { unimplemented!() } }
#fn Clone@Node::clone -> r +name=clone_
    requires sok(*self),
    ensures r == *self,
@sub self\.elems\.clone\(\) => InlineVec::clone(&self.elems)
@sub self\.kids\.clone\(\) => match &self.kids { Some(b) => Some(Box::new(InlineVec::clone(b))), None => None }
#fn Node::get -> r +where=K:Ord
    requires shp(*self, 1), sorted(nels(*self)), lawful_q::<K, Q>(),
    ensures
        match r {
            Some(e) => m_get(nels(*self), qcut::<K, Q>(*key)) == Some((*e.0, *e.1)),
            None => m_get(nels(*self), qcut::<K, Q>(*key)) is None,
        },
    decreases nh(*self)
@begin
    proof { lemma_qcut_mono::<K, Q>(*key); node(*self); shp_unfold(*self, 1); lemma_vup(*self, qcut::<K, Q>(*key)); }
@sub ?match self\.elems\.search_keys\(([^()]*)\) \{ => let s__ = self.elems.search_keys(\1); proof { get_at(*self, s__, qcut::<K, Q>(*key)); } match s__ {
#fn Node::get_mut -> r +where=K:Ord +noiso
    requires shp(*old(self), 1), sorted(nels(*old(self))), lawful_q::<K, Q>(),
    ensures
        match r {
            Some(e) => {
                let c = qcut::<K, Q>(*key);
                let s = nels(*old(self));
                &&& m_get(s, c) is Some
                &&& (m_get(s, c)->0).1 == *e
                &&& nels(*final(self)) == m_upd(s, c, *final(e))
                &&& nh(*final(self)) == nh(*old(self))
                &&& forall|lo: int| shp(*old(self), lo) ==> #[trigger] shp(*final(self), lo)
            },
            None => m_get(nels(*old(self)), qcut::<K, Q>(*key)) is None && nels(*final(self)) == nels(*old(self))
                && nh(*final(self)) == nh(*old(self))
                && forall|lo: int| shp(*old(self), lo) ==> #[trigger] shp(*final(self), lo),
        },
    decreases nh(*old(self))
@begin
    let ghost s0 = *self;
    let ghost fin = *final(self);
    proof { lemma_qcut_mono::<K, Q>(*key); node(*self); shp_unfold(*self, 1); kok_shp(*self, 0); kok_shp(*self, 1); lemma_vup(*self, qcut::<K, Q>(*key)); }
@sub ?match self\.elems\.search_keys\(([^()]*)\) \{ => let s__ = self.elems.search_keys(\1); proof { get_at(*self, s__, qcut::<K, Q>(*key)); getm_facts(*self, fin, sr(s__), qcut::<K, Q>(*key)); } match s__ {
#raw
spec fn kins<K, V>(n: Node<K, V>, i: int, c: OptNodePtr<K, V>) -> Seq<NodePtr<K, V>> {
    match c { Some(c) => kz(n).insert(i, c), None => kz(n) }
}
// room for another entry was found
spec fn nospl<K, V>(n: Node<K, V>, i: int, c: OptNodePtr<K, V>, x: (K, V), f: Node<K, V>) -> bool {
    sok(f) && ez(f) == ez(n).insert(i, x) && kz(f) == kins(n, i, c)
}
// the node was split into a, y and f
spec fn spl<K, V>(n: Node<K, V>, i: int, c: OptNodePtr<K, V>, x: (K, V), a: Node<K, V>, y: (K, V), f: Node<K, V>) -> bool {
    &&& fan(a) && fan(f) && (kz(a).len() == 0) == (kz(f).len() == 0)
    &&& 5 <= ez(a).len() <= 11 && 5 <= ez(f).len() <= 11
    &&& ez(a) + seq![y] + ez(f) == ez(n).insert(i, x)
    &&& kz(a) + kz(f) == kins(n, i, c)
}
// what either gives
proof fn ins_done<K: Ord, V>(n: Node<K, V>, m: Node<K, V>, i: int, c: OptNodePtr<K, V>, x: (K, V), k: K, v: V)
    requires
        sorted(nels(n)), lawful::<K>(), shp(n, 1), 0 <= i <= ez(n).len(),
        0 < i ==> kcut(k)(ez(n)[i - 1].0) is Greater,
        i == ez(n).len() || kcut(k)(ez(n)[i].0) is Less,
        (c is Some) == (kz(n).len() > 0),
        match c {
            Some(c) => kid_upd(n, m, i) && shp(*c, 5) && shp(kd(m, i), 5) && nh(*c) == nh(kd(n, i)) && nh(kd(m, i)) == nh(kd(n, i))
                && cat(nels(*c), x, nels(kd(m, i))) == m_ins(nels(kd(n, i)), k, v),
            None => m == n && x == (k, v),
        },
    ensures
        sok(m), fan(m), ez(m).len() == ez(n).len(), kz(m).len() == kz(n).len(),
        forall|f: Node<K, V>| #[trigger] nospl(m, i, c, x, f) && ez(n).len() < 11 ==> {
            &&& nels(f) == m_ins(nels(n), k, v)
            &&& nh(f) == nh(n)
            &&& forall|lo: int| shp(n, lo) ==> #[trigger] shp(f, lo)
        },
        forall|a: Node<K, V>, y: (K, V), f: Node<K, V>| #[trigger] spl(m, i, c, x, a, y, f) ==> {
            &&& shp(a, 5) && shp(f, 5) && nh(a) == nh(n) && nh(f) == nh(n)
            &&& cat(nels(a), y, nels(f)) == m_ins(nels(n), k, v)
        },
{
    ins_desc(n, i, k, v);
    kok_shp(n, 1);
    node(n);
    node(m);
    let es = ez(m).insert(i, x);
    let ks = kins(m, i, c);
    let h = nh(n);
    match c {
        Some(c) => { ins_up(n, m, i, c, x); }
        None => { ins_leaf(n); }
    }
    assert(il(ksq(ks), es) == m_ins(nels(n), k, v));
    assert forall|f: Node<K, V>| #[trigger] nospl(m, i, c, x, f) && ez(n).len() < 11 implies {
            &&& nels(f) == m_ins(nels(n), k, v)
            &&& nh(f) == nh(n)
            &&& forall|lo: int| shp(n, lo) ==> #[trigger] shp(f, lo)
        } by {
        q_node(f, h);
        assert forall|lo: int| shp(n, lo) implies #[trigger] shp(f, lo) by { kok_shp(n, lo); kok_shp(f, lo); }
    }
    assert forall|a: Node<K, V>, y: (K, V), f: Node<K, V>| #[trigger] spl(m, i, c, x, a, y, f) implies {
            &&& shp(a, 5) && shp(f, 5) && nh(a) == nh(n) && nh(f) == nh(n)
            &&& cat(nels(a), y, nels(f)) == m_ins(nels(n), k, v)
        } by {
        q_split(a, y, f, ks, es, h);
        kok_shp(a, 5);
        kok_shp(f, 5);
    }
}
#fn Node::ins_no_split -> r
    requires
        fan(*old(self)), ez(*old(self)).len() < 11, idx <= ez(*old(self)).len(),
        (kid is Some) == (kz(*old(self)).len() > 0), (kid is Some) == (old(self).kids is Some),
    ensures r is Absorbed, nospl(*old(self), idx as int, kid, kv, *final(self)),
#raw
// ---------------------------------------------------------------------------
// The Splitter's raw pointers.  A pointer into one of two nodes is modelled by the
// name of the node (VP); the slot arrays themselves are borrowed in its `marker`, of
// which the code says that it stands for exactly that borrow.
// ---------------------------------------------------------------------------
#[derive(Copy, Clone)]
#[allow(non_camel_case_types)]
enum VP { src, dst }
// the two arrays that the pointers may point into
struct VTwo<'a, T, const N: usize> { a: &'a mut VArr<T, N>, b: &'a mut VArr<T, N> }
#[verifier::prophetic]
spec fn fut2<'a, T, const N: usize>(x: VTwo<'a, T, N>, y: VTwo<'a, T, N>) -> bool {
    *final(x.a) == *final(y.a) && *final(x.b) == *final(y.b)
}
impl<'a, T, const N: usize> VTwo<'a, T, N> {
    spec fn at(self, p: VP) -> Seq<Option<T>> { if p is src { self.a.s@ } else { self.b.s@ } }
    // copy(p.add(i), q.add(j), n)
    fn vmv(&mut self, p: VP, i: usize, q: VP, j: usize, n: usize)
        requires
            i + n <= old(self).at(p).len(), j + n <= old(self).at(q).len(),
            forall|x: int| j <= x < j + n && !(p == q && i <= x < i + n) ==> #[trigger] old(self).at(q)[x] is None,
        ensures
            fut2(*old(self), *final(self)),
            p == q ==> {
                &&& final(self).at(p) == mv1(old(self).at(p), i as int, j as int, n as int)
                &&& p is src ==> *final(self).b == *old(self).b
                &&& p is dst ==> *final(self).a == *old(self).a
            },
            p != q ==> {
                &&& final(self).at(q) == mv_dst(old(self).at(q), old(self).at(p), i as int, j as int, n as int)
                &&& final(self).at(p) == mv_src(old(self).at(p), i as int, n as int)
            },
    {
        match p {
            VP::src => match q {
                VP::src => self.a.vmove(i, j, n),
                VP::dst => self.b.vmove_from(self.a, i, j, n),
            },
            VP::dst => match q {
                VP::src => self.a.vmove_from(self.b, i, j, n),
                VP::dst => self.b.vmove(i, j, n),
            },
        }
    }
    // p.add(i).write(MaybeUninit::new(x))
    fn vwr(&mut self, p: VP, i: usize, x: T)
        requires i < old(self).at(p).len(), old(self).at(p)[i as int] is None,
        ensures
            fut2(*old(self), *final(self)),
            final(self).at(p) == old(self).at(p).update(i as int, Some(x)),
            p is src ==> *final(self).b == *old(self).b,
            p is dst ==> *final(self).a == *old(self).a,
    {
        match p { VP::src => self.a.vwrite(i, x), VP::dst => self.b.vwrite(i, x) }
    }
    // p.add(i).read().assume_init()
    fn vrd(&mut self, p: VP, i: usize) -> (r: T)
        requires i < old(self).at(p).len(), old(self).at(p)[i as int] is Some,
        ensures
            fut2(*old(self), *final(self)),
            r == old(self).at(p)[i as int]->0,
            final(self).at(p) == old(self).at(p).update(i as int, None),
            p is src ==> *final(self).b == *old(self).b,
            p is dst ==> *final(self).a == *old(self).a,
    {
        match p { VP::src => self.a.vread(i), VP::dst => self.b.vread(i) }
    }
}
#subst \*mut\sMaybeUninit<(?:NodePtr<K,\sV>|\w+)> => VP
#subst std::marker::PhantomData<&'a\smut\s\(K,\sV\)> => VMem<'a,K,V>
#item struct Splitter
#raw
// what the pointers point into
struct VMem<'a, K, V> {
    keys: VTwo<'a, K, 11>,
    vals: VTwo<'a, V, 11>,
    kids: Option<VTwo<'a, NodePtr<K, V>, 12>>,
}
#[verifier::prophetic]
spec fn fut<'a, K, V>(x: VMem<'a, K, V>, y: VMem<'a, K, V>) -> bool {
    &&& fut2(x.keys, y.keys)
    &&& fut2(x.vals, y.vals)
    &&& (x.kids is Some) == (y.kids is Some)
    &&& x.kids is Some ==> fut2(x.kids->0, y.kids->0)
}
fn vkids<'a, K, V>(a: &'a mut Option<Box<Kids<K, V>>>, b: &'a mut Option<Box<Kids<K, V>>>) -> (r: Option<VTwo<'a, NodePtr<K, V>, 12>>)
    ensures
        match r {
            Some(t) => {
                &&& (*old(a)) is Some && (*old(b)) is Some && (*final(a)) is Some && (*final(b)) is Some
                &&& *t.a == (*old(a))->0.keys && *t.b == (*old(b))->0.keys
                &&& (*final(a))->0.keys == *final(t.a) && (*final(a))->0.vals == (*old(a))->0.vals && (*final(a))->0.len == (*old(a))->0.len
                &&& (*final(b))->0.keys == *final(t.b) && (*final(b))->0.vals == (*old(b))->0.vals && (*final(b))->0.len == (*old(b))->0.len
            },
            None => ((*old(a)) is None || (*old(b)) is None) && *final(a) == *old(a) && *final(b) == *old(b),
        },
{
    match a {
        None => None,
        Some(x) => match b {
            None => None,
            Some(y) => Some(VTwo { a: &mut x.keys, b: &mut y.keys }),
        },
    }
}
// the kids' arrays
fn vsome<'b, T>(x: &'b mut Option<T>) -> (r: &'b mut T)
    requires (*old(x)) is Some,
    ensures *r == (*old(x))->0, (*final(x)) is Some, (*final(x))->0 == *final(r),
{
    x.as_mut().unwrap()
}
// the first di slots of the destination are filled, and those of the source from si on
#[verifier::opaque]
spec fn lay<T>(d: Seq<Option<T>>, s: Seq<Option<T>>, same: bool, di: int, si: int) -> bool {
    &&& 0 <= di <= d.len() && 0 <= si <= s.len()
    &&& same ==> d == s && di <= si
    &&& forall|j: int| 0 <= j < di ==> #[trigger] d[j] is Some
    &&& forall|j: int| si <= j < s.len() ==> #[trigger] s[j] is Some
    &&& forall|j: int| di <= j < d.len() && !(same && si <= j) ==> #[trigger] d[j] is None
    &&& forall|j: int| 0 <= j < si && !(same && j < di) ==> #[trigger] s[j] is None
}
// what is there
#[verifier::opaque]
spec fn front<T>(d: Seq<Option<T>>, di: int) -> Seq<T> { held(d, di) }
#[verifier::opaque]
spec fn rest<T>(s: Seq<Option<T>>, si: int) -> Seq<T> { Seq::new((s.len() - si) as nat, |i: int| s[si + i]->0) }

impl<'a, K, V> Splitter<'a, K, V> {
    spec fn same(self) -> bool { self.dst_keys is src }
    spec fn ok(self) -> bool {
        let m = self.marker;
        &&& self.src_keys is src && self.src_vals is src && self.dst_keys == self.dst_vals
        &&& m.keys.a.s@.len() == 11 && m.keys.b.s@.len() == 11 && m.vals.a.s@.len() == 11 && m.vals.b.s@.len() == 11
        &&& lay(m.keys.at(self.dst_keys), m.keys.a.s@, self.same(), self.dst_idx as int, self.src_idx as int)
        &&& lay(m.vals.at(self.dst_vals), m.vals.a.s@, self.same(), self.dst_idx as int, self.src_idx as int)
        &&& self.src_kids is Some == m.kids is Some && self.dst_kids is Some == m.kids is Some
        &&& self.src_kids_idx <= 12 && self.dst_kids_idx <= 12
        &&& m.kids is Some ==> {
                let k = m.kids->0;
                &&& self.src_kids->0 is src && self.dst_kids->0 == self.dst_keys
                &&& k.a.s@.len() == 12 && k.b.s@.len() == 12
                &&& lay(k.at(self.dst_kids->0), k.a.s@, self.same(), self.dst_kids_idx as int, self.src_kids_idx as int)
            }
    }
    spec fn fk(self) -> Seq<K> { front(self.marker.keys.at(self.dst_keys), self.dst_idx as int) }
    spec fn fv(self) -> Seq<V> { front(self.marker.vals.at(self.dst_keys), self.dst_idx as int) }
    spec fn fc(self) -> Seq<NodePtr<K, V>> { if self.marker.kids is Some { front(self.marker.kids->0.at(self.dst_keys), self.dst_kids_idx as int) } else { Seq::empty() } }
    spec fn rk(self) -> Seq<K> { rest(self.marker.keys.a.s@, self.src_idx as int) }
    spec fn rv(self) -> Seq<V> { rest(self.marker.vals.a.s@, self.src_idx as int) }
    spec fn rc(self) -> Seq<NodePtr<K, V>> { if self.marker.kids is Some { rest(self.marker.kids->0.a.s@, self.src_kids_idx as int) } else { Seq::empty() } }
    // the other pointers and the arrays not in use
    #[verifier::prophetic]
    spec fn kept(self, f: Self) -> bool {
        let (m, n) = (self.marker, f.marker);
        &&& fut(m, n)
        &&& f.src_keys == self.src_keys && f.src_vals == self.src_vals && f.src_kids == self.src_kids
        &&& f.dst_keys == self.dst_keys && f.dst_vals == self.dst_vals && f.dst_kids == self.dst_kids
        &&& self.same() ==> *n.keys.b == *m.keys.b && *n.vals.b == *m.vals.b && (m.kids is Some ==> *n.kids->0.b == *m.kids->0.b)
    }
}
#prop C14
#fn Splitter::new -> r
    requires
        vok(old(src).elems), old(src).elems.len == 11, vok(old(dst).elems), old(dst).elems.len == 0,
        (old(src).kids is Some) == (old(dst).kids is Some),
        old(src).kids is Some ==> vok(*old(src).kids->0) && old(src).kids->0.len == 12 && vok(*old(dst).kids->0) && old(dst).kids->0.len == 0,
    ensures
        r.ok(), !r.same(), r.src_idx == 0, r.dst_idx == 0, r.src_kids_idx == 0, r.dst_kids_idx == 0,
        r.fk() =~= Seq::<K>::empty(), r.fv() =~= Seq::<V>::empty(), r.fc() =~= Seq::<NodePtr<K, V>>::empty(),
        r.rk() =~= vk(old(src).elems), r.rv() =~= vv(old(src).elems), r.rc() =~= kz(*old(src)),
        (r.marker.kids is Some) == (old(src).kids is Some),
        final(src).elems.keys == *final(r.marker.keys.a), final(src).elems.vals == *final(r.marker.vals.a),
        final(dst).elems.keys == *final(r.marker.keys.b), final(dst).elems.vals == *final(r.marker.vals.b),
        (final(src).kids is Some) == (old(src).kids is Some), (final(dst).kids is Some) == (old(dst).kids is Some),
        old(src).kids is Some ==> final(src).kids->0.keys == *final(r.marker.kids->0.a) && final(dst).kids->0.keys == *final(r.marker.kids->0.b)
            && final(src).kids->0.vals == old(src).kids->0.vals && final(dst).kids->0.vals == old(dst).kids->0.vals,
@begin
    proof { reveal(lay); reveal(front); reveal(rest); }
@sub (src|dst)\.elems\.(?:keys|vals)\.as_mut_ptr\(\) => VP::\1
@sub (src|dst)\.kids\.as_mut\(\)\.map\(\|ks\| ks\.keys\.as_mut_ptr\(\)\) => match &\1.kids { Some(_) => Some(VP::\1), None => None }
@sub marker: PhantomData => marker: VMem { keys: VTwo { a: &mut src.elems.keys, b: &mut dst.elems.keys }, vals: VTwo { a: &mut src.elems.vals, b: &mut dst.elems.vals }, kids: vkids(&mut src.kids, &mut dst.kids) }
#fn Splitter::dst_len -> r
    ensures r == self.dst_idx,
#raw
// there is room for what is moved
proof fn lemma_room<'a, K, V>(s: Splitter<'a, K, V>, n: int, c: int)
    requires s.ok(), 0 <= n, 0 <= c, s.src_idx + n <= 11, s.src_kids_idx + c <= 12,
    ensures
        forall|x: int| s.dst_idx <= x < s.dst_idx + n && !(s.same() && s.src_idx <= x < s.src_idx + n) && x < 11 ==> #[trigger] s.marker.keys.at(s.dst_keys)[x] is None,
        forall|x: int| s.dst_idx <= x < s.dst_idx + n && !(s.same() && s.src_idx <= x < s.src_idx + n) && x < 11 ==> #[trigger] s.marker.vals.at(s.dst_keys)[x] is None,
        s.marker.kids is Some ==> forall|x: int| s.dst_kids_idx <= x < s.dst_kids_idx + c && !(s.same() && s.src_kids_idx <= x < s.src_kids_idx + c) && x < 12 ==> #[trigger] s.marker.kids->0.at(s.dst_keys)[x] is None,
{
    reveal(lay);
}
proof fn lemma_moved<'a, T, const N: usize>(m: VTwo<'a, T, N>, f: VTwo<'a, T, N>, q: VP, di: int, si: int, n: int)
    requires
        lay(m.at(q), m.at(VP::src), q is src, di, si), 0 <= n, si + n <= m.at(VP::src).len(), di + n <= m.at(q).len(),
        q is src ==> f.at(q) == mv1(m.at(q), si, di, n),
        q is dst ==> f.at(q) == mv_dst(m.at(q), m.at(VP::src), si, di, n) && f.at(VP::src) == mv_src(m.at(VP::src), si, n),
    ensures
        lay(f.at(q), f.at(VP::src), q is src, di + n, si + n),
        front(f.at(q), di + n) =~= front(m.at(q), di) + rest(m.at(VP::src), si).take(n),
        rest(f.at(VP::src), si + n) =~= rest(m.at(VP::src), si).skip(n),
{
    reveal(lay);
    reveal(front);
    reveal(rest);
}
#prop C14
#fn Splitter::xfer
    requires
        old(self).ok(),
        cnt_elems <= 11, cnt_kids <= 12,
        old(self).src_idx + cnt_elems <= 11, old(self).dst_idx + cnt_elems <= 11,
        old(self).src_kids_idx + cnt_kids <= 12, old(self).dst_kids_idx + cnt_kids <= 12,
    ensures
        final(self).ok(), old(self).kept(*final(self)),
        final(self).src_idx == old(self).src_idx + cnt_elems, final(self).dst_idx == old(self).dst_idx + cnt_elems,
        final(self).src_kids_idx == old(self).src_kids_idx + cnt_kids, final(self).dst_kids_idx == old(self).dst_kids_idx + cnt_kids,
        final(self).fk() =~= old(self).fk() + old(self).rk().take(cnt_elems as int), final(self).rk() =~= old(self).rk().skip(cnt_elems as int),
        final(self).fv() =~= old(self).fv() + old(self).rv().take(cnt_elems as int), final(self).rv() =~= old(self).rv().skip(cnt_elems as int),
        old(self).marker.kids is Some ==> final(self).fc() =~= old(self).fc() + old(self).rc().take(cnt_kids as int) && final(self).rc() =~= old(self).rc().skip(cnt_kids as int),
@begin
    let ghost s0 = *self;
    proof { lemma_room(s0, cnt_elems as int, cnt_kids as int); }
@tail
    proof {
        let (m, f) = (s0.marker, self.marker);
        let n = cnt_elems as int;
        lemma_moved(m.keys, f.keys, s0.dst_keys, s0.dst_idx as int, s0.src_idx as int, n);
        lemma_moved(m.vals, f.vals, s0.dst_keys, s0.dst_idx as int, s0.src_idx as int, n);
        if m.kids is Some {
            lemma_moved(m.kids->0, f.kids->0, s0.dst_keys, s0.dst_kids_idx as int, s0.src_kids_idx as int, cnt_kids as int);
        }
    }
@sub copy\(\s*self\.(src|dst)_(keys|vals)\.add\(([\w.]+)\),\s*self\.(src|dst)_\2\.add\(([\w.]+)\),\s*([^;]*?),?\s*\); => self.marker.\2.vmv(self.\1_\2, \3, self.\4_\2, \5, \6);
@sub copy\(\s*(src|dst)_kids\.add\(([\w.]+)\),\s*(src|dst)_kids\.add\(([\w.]+)\),\s*([^;]*?),?\s*\); => vsome(&mut self.marker.kids).vmv(\1_kids, \2, \3_kids, \4, \5);
#fn Splitter::push_back_kid_dst
    requires
        old(self).ok(), old(self).dst_idx < 11, old(self).dst_kids_idx < 12,
        old(self).same() ==> old(self).dst_kids_idx < old(self).src_kids_idx,
        (kid is Some) == (old(self).marker.kids is Some),
    ensures
        final(self).ok(), old(self).kept(*final(self)),
        final(self).src_idx == old(self).src_idx, final(self).dst_idx == old(self).dst_idx,
        final(self).src_kids_idx == old(self).src_kids_idx, final(self).dst_kids_idx == old(self).dst_kids_idx + 1,
        final(self).fk() =~= old(self).fk(), final(self).rk() =~= old(self).rk(),
        final(self).fv() =~= old(self).fv(), final(self).rv() =~= old(self).rv(),
        kid is Some ==> final(self).fc() =~= old(self).fc().push(kid->0) && final(self).rc() =~= old(self).rc(),
@begin
    proof { reveal(lay); reveal(front); reveal(rest); }
@sub self\.(src|dst)_kids\s*\.unwrap\(\)\s*\.add\(([\w.]+)\)\s*\.write\(MaybeUninit::new\((.*?)\)\); => vsome(&mut self.marker.kids).vwr(self.\1_kids.unwrap(), \2, \3);
#fn Splitter::push_back_dst
    requires
        old(self).ok(), old(self).dst_idx < 10, old(self).dst_kids_idx < 12,
        old(self).same() ==> old(self).dst_idx < old(self).src_idx && old(self).dst_kids_idx < old(self).src_kids_idx,
        (kid is Some) == (old(self).marker.kids is Some),
    ensures
        final(self).ok(), old(self).kept(*final(self)),
        final(self).src_idx == old(self).src_idx, final(self).dst_idx == old(self).dst_idx + 1,
        final(self).src_kids_idx == old(self).src_kids_idx, final(self).dst_kids_idx == old(self).dst_kids_idx + 1,
        final(self).fk() =~= old(self).fk().push(kv.0), final(self).rk() =~= old(self).rk(),
        final(self).fv() =~= old(self).fv().push(kv.1), final(self).rv() =~= old(self).rv(),
        kid is Some ==> final(self).fc() =~= old(self).fc().push(kid->0) && final(self).rc() =~= old(self).rc(),
@begin
    proof { reveal(lay); reveal(front); reveal(rest); }
@sub self\.(src|dst)_(keys|vals)\s*\.add\(([\w.]+)\)\s*\.write\(MaybeUninit::new\((.*?)\)\); => self.marker.\2.vwr(self.\1_\2, \3, \4);
#fn Splitter::pop_front_src -> r
    requires old(self).ok(), old(self).src_idx < 11, !old(self).same(),
    ensures
        final(self).ok(), old(self).kept(*final(self)),
        final(self).src_idx == old(self).src_idx + 1, final(self).dst_idx == old(self).dst_idx,
        final(self).src_kids_idx == old(self).src_kids_idx, final(self).dst_kids_idx == old(self).dst_kids_idx,
        r == (old(self).rk()[0], old(self).rv()[0]),
        final(self).fk() =~= old(self).fk(), final(self).rk() =~= old(self).rk().skip(1),
        final(self).fv() =~= old(self).fv(), final(self).rv() =~= old(self).rv().skip(1),
        final(self).fc() =~= old(self).fc(), final(self).rc() =~= old(self).rc(),
@begin
    proof { reveal(lay); reveal(front); reveal(rest); }
@sub self\.(src|dst)_(keys|vals)\s*\.add\(([\w.]+)\)\s*\.read\(\)\s*\.assume_init\(\) => self.marker.\2.vrd(self.\1_\2, \3)
#fn Splitter::finalize_src
    requires old(self).ok(), !old(self).same(), old(self).src_idx <= 11, old(self).src_kids_idx <= 12,
    ensures
        old(self).kept(*final(self)),
        final(self).dst_idx == old(self).dst_idx, final(self).dst_kids_idx == old(self).dst_kids_idx,
        *final(self).marker.keys.b == *old(self).marker.keys.b, *final(self).marker.vals.b == *old(self).marker.vals.b,
        full(final(self).marker.keys.a.s@, 11 - old(self).src_idx), held(final(self).marker.keys.a.s@, 11 - old(self).src_idx) =~= old(self).rk(),
        full(final(self).marker.vals.a.s@, 11 - old(self).src_idx), held(final(self).marker.vals.a.s@, 11 - old(self).src_idx) =~= old(self).rv(),
        final(self).marker.keys.a.s@.len() == 11, final(self).marker.vals.a.s@.len() == 11,
        final(self).marker.keys.b.s@.len() == 11, final(self).marker.vals.b.s@.len() == 11,
        full(final(self).marker.keys.b.s@, old(self).dst_idx as int), held(final(self).marker.keys.b.s@, old(self).dst_idx as int) =~= old(self).fk(),
        full(final(self).marker.vals.b.s@, old(self).dst_idx as int), held(final(self).marker.vals.b.s@, old(self).dst_idx as int) =~= old(self).fv(),
        old(self).marker.kids is Some ==> {
            let (k, k2) = (old(self).marker.kids->0, final(self).marker.kids->0);
            &&& *k2.b == *k.b
            &&& k2.a.s@.len() == 12 && k2.b.s@.len() == 12
            &&& full(k2.b.s@, old(self).dst_kids_idx as int)
            &&& held(k2.b.s@, old(self).dst_kids_idx as int) =~= old(self).fc()
            &&& full(k2.a.s@, 12 - old(self).src_kids_idx)
            &&& held(k2.a.s@, 12 - old(self).src_kids_idx) =~= old(self).rc()
        },
@begin
    proof { reveal(lay); reveal(front); reveal(rest); }
@sub copy\(\s*self\.(src|dst)_(keys|vals)\.add\(([\w.]+)\),\s*self\.(src|dst)_\2,\s*([^;]*?),?\s*\); => self.marker.\2.vmv(self.\1_\2, \3, self.\4_\2, 0, \5);
@sub copy\(\s*self\.(src|dst)_kids\.unwrap\(\)\.add\(([\w.]+)\),\s*self\.(src|dst)_kids\.unwrap\(\),\s*([^;]*?),?\s*\); => vsome(&mut self.marker.kids).vmv(self.\1_kids.unwrap(), \2, self.\3_kids.unwrap(), 0, \4);
#raw
// the destination becomes the front of the source
proof fn lemma_retarget<'a, K, V>(s: Splitter<'a, K, V>, t: Splitter<'a, K, V>)
    requires
        s.ok(), !s.same(), s.marker == t.marker, s.src_idx == t.src_idx, s.src_kids_idx == t.src_kids_idx,
        s.src_keys == t.src_keys, s.src_vals == t.src_vals, s.src_kids == t.src_kids,
        t.dst_keys is src, t.dst_vals is src, t.dst_kids == s.src_kids, t.dst_idx == 0, t.dst_kids_idx == 0,
    ensures
        t.ok(), t.same(),
        t.fk() =~= Seq::<K>::empty(), t.fv() =~= Seq::<V>::empty(), t.marker.kids is Some ==> t.fc() =~= Seq::<NodePtr<K, V>>::empty(),
        t.rk() == s.rk(), t.rv() == s.rv(), t.rc() == s.rc(),
        full(s.marker.keys.at(VP::dst), s.dst_idx as int), held(s.marker.keys.at(VP::dst), s.dst_idx as int) =~= s.fk(),
        full(s.marker.vals.at(VP::dst), s.dst_idx as int), held(s.marker.vals.at(VP::dst), s.dst_idx as int) =~= s.fv(),
        s.marker.kids is Some ==> full(s.marker.kids->0.at(VP::dst), s.dst_kids_idx as int) && held(s.marker.kids->0.at(VP::dst), s.dst_kids_idx as int) =~= s.fc(),
{
    reveal(lay);
    reveal(front);
    reveal(rest);
}
// the source is used up
proof fn lemma_used_up<'a, K, V>(s: Splitter<'a, K, V>)
    requires s.ok(), s.same(), s.src_idx == 11, s.marker.kids is Some ==> s.src_kids_idx == 12,
    ensures
        full(s.marker.keys.at(VP::src), s.dst_idx as int), held(s.marker.keys.at(VP::src), s.dst_idx as int) =~= s.fk(),
        full(s.marker.vals.at(VP::src), s.dst_idx as int), held(s.marker.vals.at(VP::src), s.dst_idx as int) =~= s.fv(),
        s.marker.kids is Some ==> full(s.marker.kids->0.at(VP::src), s.dst_kids_idx as int) && held(s.marker.kids->0.at(VP::src), s.dst_kids_idx as int) =~= s.fc(),
{
    reveal(lay);
    reveal(front);
}
#raw
// entries laid side by side, key by key and value by value
proof fn lemma_vs<K, V>(a: Node<K, V>, y: (K, V), f: Node<K, V>, n: Node<K, V>, i: int, x: (K, V))
    requires
        0 <= i <= n.elems.len,
        vk(a.elems) + seq![y.0] + vk(f.elems) == vk(n.elems).insert(i, x.0),
        vv(a.elems) + seq![y.1] + vv(f.elems) == vv(n.elems).insert(i, x.1),
    ensures ez(a) + seq![y] + ez(f) == ez(n).insert(i, x),
{
    let (ks, vs0) = (vk(n.elems).insert(i, x.0), vv(n.elems).insert(i, x.1));
    let l = ez(a) + seq![y] + ez(f);
    let r = ez(n).insert(i, x);
    assert(ks.len() == l.len() && ks.len() == r.len());
    assert forall|j: int| 0 <= j < l.len() implies l[j] == r[j] by {
        assert(l[j].0 == ks[j] && l[j].1 == vs0[j]);
        assert(r[j].0 == ks[j] && r[j].1 == vs0[j]);
    }
    assert(l =~= r);
}
#prop C14
#fn Node::ins_split -> r +rlimit=80
    requires
        fan(*old(self)), ez(*old(self)).len() == 11, idx <= ez(*old(self)).len(),
        (kid is Some) == (kz(*old(self)).len() > 0), (kid is Some) == (old(self).kids is Some),
    ensures
        r is Split, r->Split_0 is Some,
        spl(*old(self), idx as int, kid, kv, *(r->Split_0->0), r->Split_1, *final(self)),
@sub let mut (\w+) = Arc::new\(([^;]*)\);\s*let (\w+) = Arc::get_mut\(&mut \1\)\.unwrap\(\); => let mut \1 = Arc::new(\2); let \3 = arc_get_mut_unique(&mut \1).unwrap();
@begin
    let ghost s0 = *self;
@before ?splitter\.dst_keys =
    let ghost s1 = splitter;
@before ?splitter\.xfer\(idx - MIN_OCCUPANCY - 2
    proof { lemma_retarget(s1, splitter); }
@before ?lhs\.elems\.len =
    proof {
        if splitter.same() { lemma_used_up(splitter); }
    }
@tail
    proof {
        let (a, f, y) = (an(__r->Split_0->0), *self, __r->Split_1);
        assert(vk(a.elems) + seq![y.0] + vk(f.elems) =~= vk(s0.elems).insert(idx as int, kv.0));
        assert(vv(a.elems) + seq![y.1] + vv(f.elems) =~= vv(s0.elems).insert(idx as int, kv.1));
        lemma_vs(a, y, f, s0, idx as int, kv);
        assert(kz(a) + kz(f) =~= kins(s0, idx as int, kid));
    }
#fn Node::insert -> r +noiso
    requires shp(*old(self), 1), sorted(nels(*old(self))), lawful::<K>(),
    ensures
        match r {
            InsertResult::Replaced(k, v) => {
                &&& m_get(nels(*old(self)), kcut(kv.0)) == Some((k, v))
                &&& nels(*final(self)) == m_ins(nels(*old(self)), kv.0, kv.1)
                &&& nh(*final(self)) == nh(*old(self))
                &&& forall|lo: int| shp(*old(self), lo) ==> #[trigger] shp(*final(self), lo)
            },
            InsertResult::Absorbed => {
                &&& m_get(nels(*old(self)), kcut(kv.0)) is None
                &&& nels(*final(self)) == m_ins(nels(*old(self)), kv.0, kv.1)
                &&& nh(*final(self)) == nh(*old(self))
                &&& forall|lo: int| shp(*old(self), lo) ==> #[trigger] shp(*final(self), lo)
            },
            InsertResult::Split(l, x) => {
                &&& m_get(nels(*old(self)), kcut(kv.0)) is None
                &&& l is Some
                &&& shp(*(l->0), 5)
                &&& shp(*final(self), 5)
                &&& nh(*(l->0)) == nh(*old(self))
                &&& nh(*final(self)) == nh(*old(self))
                &&& cat(nels(*(l->0)), x, nels(*final(self))) == m_ins(nels(*old(self)), kv.0, kv.1)
            },
        },
    decreases nh(*old(self))
@begin
    let ghost s0 = *self;
    let ghost fin = *final(self);
    let ghost k0 = kv.0;
    let ghost v0 = kv.1;
    proof { lemma_kcut_mono(kv.0); lemma_self_q(kv.0); node(*self); shp_unfold(*self, 1); kok_shp(*self, 0); kok_shp(*self, 1); lemma_vup(*self, kcut(kv.0)); }
@sub ?match self\.elems\.search_keys\(([^()]*)\) \{ => let s__ = self.elems.search_keys(\1); proof { get_at(s0, s__, kcut(k0)); if s__ is Ok { ins_found(s0, fin, sr(s__), k0, v0); } else { ins_desc(s0, sr(s__), k0, v0); } } match s__ {
@before ?let Split
    let ghost s1 = *self;
    let ghost res0 = res;
    proof {
        if kz(s0).len() > 0 {
            assert(kid_upd(s0, s1, ub_x as int));
            upd_facts(s0, s1, ub_x as int);
            assert(nh(kd(s1, ub_x as int)) == nh(kd(s0, ub_x as int)));
            assert(shp(kd(s1, ub_x as int), 5));
        }
        if res is Split { ins_done(s0, s1, ub_x as int, res->Split_0, res->Split_1, k0, v0); }
    }
#raw
// what Drop of a node relies on: every slot up to the length is filled, none beyond it is
spec fn dropok<K, V>(n: Node<K, V>) -> bool {
    vok(n.elems) && (n.kids is Some ==> vok(*n.kids->0))
}
#prop C14
#fn Node::rot_lf
    requires
        shpx(*old(self), idx as int, 4), idx < ez(*old(self)).len(), kz(*old(self)).len() > 0,
        ez(kd(*old(self), idx as int)).len() == 4,
        ez(kd(*old(self), idx as int + 1)).len() > 5,
    ensures
        nels(*final(self)) == nels(*old(self)),
        kok(*final(self)),
        nh(*final(self)) == nh(*old(self)),
        ez(*final(self)).len() == ez(*old(self)).len(),
@sub ([\w.()]+)\.map\(\|(\w+)\|\s*(\w+\.\w+\(\w*\))\) => match \1 { Some(\2) => Some(\3), None => None }
@begin
    let ghost s0 = *self;
    proof { nbr_facts(s0, idx as int, idx as int); }
@tail
    proof {
        assert(rotated(s0, *self, idx as int));
        rot_facts(s0, *self, idx as int, idx as int);
    }
#fn Node::rot_rt
    requires
        shpx(*old(self), idx as int + 1, 4), idx < ez(*old(self)).len(), kz(*old(self)).len() > 0,
        ez(kd(*old(self), idx as int)).len() > 5,
        ez(kd(*old(self), idx as int + 1)).len() == 4,
    ensures
        nels(*final(self)) == nels(*old(self)),
        kok(*final(self)),
        nh(*final(self)) == nh(*old(self)),
        ez(*final(self)).len() == ez(*old(self)).len(),
@sub ([\w.()]+)\.map\(\|(\w+)\|\s*(\w+\.\w+\(\w*\))\) => match \1 { Some(\2) => Some(\3), None => None }
@begin
    let ghost s0 = *self;
    proof { nbr_facts(s0, idx as int, idx as int + 1); }
@tail
    proof {
        assert(rotated(s0, *self, idx as int));
        rot_facts(s0, *self, idx as int, idx as int + 1);
    }
#fn Node::merge_kids
    requires
        at < ez(*old(self)).len(), kz(*old(self)).len() > 0,
        shpx(*old(self), at as int, 4) || shpx(*old(self), at as int + 1, 4),
        5 <= ez(kd(*old(self), at as int)).len() + 1 + ez(kd(*old(self), at as int + 1)).len() <= 11,
    ensures
        nels(*final(self)) == nels(*old(self)),
        kok(*final(self)),
        nh(*final(self)) == nh(*old(self)),
        ez(*final(self)).len() == ez(*old(self)).len() - 1,
@sub &mut ([\w.()]+)\[(\w+)\] => vat_mut(\1, \2)
@sub let (\w+) = ([\w.]+)\.(keys|vals)_mut\(\)\.as_mut_ptr\(\); => \2.\3.vsome0(); let \1 = &mut \2.\3;
@sub let (\w+) = (\w+)\.keys\.as_mut_ptr\(\); => let \1 = &mut \2.keys;
@sub copy\((\w+), (\w+)\.add\(([^()]*)\), (\w+)\); => \2.vmove_from(\1, 0, \3, \4);
@begin
    let ghost s0 = *self;
    proof {
        if shpx(s0, at as int, 4) { nbr_facts(s0, at as int, at as int); } else { nbr_facts(s0, at as int, at as int + 1); }
    }
@before unsafe \{
    let ghost (l1, r1) = (lhs_mut.elems, rhs_n.elems);
@tail
    proof {
        assert(dropok(rhs_n));
        let (l, r, c) = (kd(s0, at as int), kd(s0, at as int + 1), kd(*self, at as int));
        assert(ez(*self) =~= ez(s0).remove(at as int));
        assert(kz(*self) =~= kz(s0).remove(at as int + 1).update(at as int, kz(*self)[at as int]));
        assert(vs(l1) == ez(l).push(ez(s0)[at as int]) && vs(r1) == ez(r));
        assert forall|j: int| 0 <= j < ez(c).len() implies #[trigger] ez(c)[j] == (ez(l) + seq![ez(s0)[at as int]] + ez(r))[j] by {
            let n = l1.len as int;
            if j < n {
                assert(c.elems.keys.s@[j] == l1.keys.s@[j] && c.elems.vals.s@[j] == l1.vals.s@[j]);
                assert(vs(l1)[j] == ez(c)[j]);
            } else {
                assert(c.elems.keys.s@[j] == r1.keys.s@[j - n] && c.elems.vals.s@[j] == r1.vals.s@[j - n]);
                assert(vs(r1)[j - n] == ez(c)[j]);
            }
        }
        assert(ez(c) =~= ez(l) + seq![ez(s0)[at as int]] + ez(r));
        assert(kz(c) =~= kz(l) + kz(r));
        assert(merged(s0, *self, at as int));
        if shpx(s0, at as int, 4) { merge_facts(s0, *self, at as int, at as int); }
        else { merge_facts(s0, *self, at as int, at as int + 1); }
    }
#fn Node::rebal -> r
    requires short(*old(self), at as int),
    ensures
        nels(*final(self)) == nels(*old(self)),
        kok(*final(self)),
        nh(*final(self)) == nh(*old(self)),
        ez(*old(self)).len() - 1 <= ez(*final(self)).len() <= ez(*old(self)).len(),
        r.0 == (ez(*final(self)).len() < 5),
@sub ?\bconst MERGE_THRESHOLD: usize = => let MERGE_THRESHOLD: usize =
@begin
    proof {
        if at > 0 { nbr_facts(*self, at as int - 1, at as int); } else { nbr_facts(*self, at as int, at as int); }
    }
#fn Node::pop_greatest -> r +noiso
    requires shp(*old(self), 1),
    ensures
        nels(*old(self)).len() > 0,
        r.0 == nels(*old(self)).last(),
        nels(*final(self)) == nels(*old(self)).drop_last(),
        rm_kept(*old(self), *final(self), r.1.0),
    decreases nh(*old(self))
@begin
    let ghost s0 = *self;
    proof {
        shp_unfold(s0, 1);
        first_facts(s0);
        if kz(s0).len() > 0 { steps(s0, kz(s0).len() - 1); } else { leaf_rm(s0); }
    }
#fn Node::remove -> r +noiso +where=K:Ord
    requires shp(*old(self), 1), sorted(nels(*old(self))), lawful_q::<K, Q>(),
    ensures
        match r {
            Some(x) => {
                let t = qcut::<K, Q>(*key);
                &&& m_get(nels(*old(self)), t) == Some(x.0)
                &&& nels(*final(self)) == m_rm(nels(*old(self)), t)
                &&& rm_kept(*old(self), *final(self), x.1.0)
            },
            None => m_get(nels(*old(self)), qcut::<K, Q>(*key)) is None && nels(*final(self)) == nels(*old(self))
                && rm_kept(*old(self), *final(self), false) && ez(*final(self)).len() == ez(*old(self)).len(),
        },
    decreases nh(*old(self))
@begin
    let ghost s0 = *self;
    let ghost t = qcut::<K, Q>(*key);
    proof { lemma_qcut_mono::<K, Q>(*key); node(s0); shp_unfold(s0, 1); kok_shp(s0, 1); kok_shp(s0, 0); if kz(s0).len() == 0 { leaf_rm(s0); } lemma_vup(s0, t); }
@sub ?match self\.elems\.search_keys\(([^()]*)\) \{ => let s__ = self.elems.search_keys(\1); proof { get_at(s0, s__, t); if s__ is Ok { rm_found(s0, sr(s__), t); } else { rm_desc(s0, sr(s__), t); } } match s__ {
@before ?if is_under_pop\.0
    proof {
        assert(ez(*self) =~= ez(s0).update(i as int, ez(*self)[i as int]));
        assert(kz(*self) =~= kz(s0).update(i as int, kz(*self)[i as int]));
        assert(step2(s0, *self, i as int));
    }
