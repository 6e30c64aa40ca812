#include header.inc
#include order.inc
#include seqs.inc
#include bulk.inc
#include viter.inc
#include seqcmp.inc
#include range.inc
#include btbase.inc
#prop C05 C06 C07
#fn max_occupancy -> r
    requires min_occupancy < 0x1000_0000,
    ensures r == 2 * min_occupancy + 1,
#const MIN_OCCUPANCY -> impl<K, V, const N: usize> Node<K, V, N>
    ensures r == N,
#const MAX_OCCUPANCY -> impl<K, V, const N: usize> Node<K, V, N>
    requires okn::<N>(),
    ensures r == 2 * N + 1,
#fn Node::child -> r
    ensures
        r is Some <==> i < self.kids.len(),
        r is Some ==> *(r->0) == self.kids[i as int],
#fn Node::child_mut -> r
    ensures
        match r {
            Some(x) => i < old(self).kids.len() && *x == old(self).kids[i as int]
                && final(self).kids@ == old(self).kids@.update(i as int, *final(x)) && final(self).elems == old(self).elems,
            None => i >= old(self).kids.len() && *final(self) == *old(self),
        },
#fn Node::key -> r
    requires i < self.elems.len(),
    ensures *r == self.elems[i as int].0,
#fn Node::key_mut -> r
    requires i < old(self).elems.len(),
    ensures
        *r == old(self).elems[i as int].0,
        final(self).elems@ == old(self).elems@.update(i as int, (*final(r), old(self).elems[i as int].1)),
        final(self).kids == old(self).kids,
#fn Node::val -> r
    requires i < self.elems.len(),
    ensures *r == self.elems[i as int].1,
#fn Node::val_mut -> r
    requires i < old(self).elems.len(),
    ensures
        *r == old(self).elems[i as int].1,
        final(self).elems@ == old(self).elems@.update(i as int, (old(self).elems[i as int].0, *final(r))),
        final(self).kids == old(self).kids,
#fn Node::len -> r
    ensures r == self.elems.len(),
#fn Node::is_branch -> r
    ensures r == (self.kids.len() != 0),
#fn Node::is_leaf -> r
    ensures r == (self.kids.len() == 0),
#raw
// what a lookup finds once the scan of the entries has stopped at i
proof fn get_facts<K: Ord, V, const N: usize>(n: Node<K, V, N>, i: int, t: Cut<K>)
    requires
        sorted(nels(n)), mono(t), lawful::<K>(), shp(n, 0),
        0 <= i <= n.elems.len(),
        0 < i ==> t(n.elems[i - 1].0) is Greater,
        i == n.elems.len() || !(t(n.elems[i].0) is Greater),
    ensures
        i < n.elems.len() && t(n.elems[i].0) is Equal ==> m_get(nels(n), t) == Some(n.elems[i]),
        i == n.elems.len() || t(n.elems[i].0) is Less ==> {
            &&& n.kids.len() == 0 ==> m_get(nels(n), t) is None
            &&& n.kids.len() > 0 ==> m_get(nels(n), t) == m_get(nels(kd(n, i)), t) && sorted(nels(kd(n, i)))
                    && shp(kd(n, i), 0) && nh(kd(n, i)) < nh(n)
        },
{
    node(n);
    let (ks, es) = (ksq(n.kids@), n.elems@);
    if i < es.len() && t(es[i].0) is Equal {
        lemma_found(ks, es, i, t);
    } else {
        lemma_descend(ks, es, i, t);
        if n.kids.len() == 0 {
            lemma_idx_empty(kat(ks, i), t);
        } else {
            let kk = kd(n, i);
            shp_unfold(n, 0);
            shp_unfold(kk, N as int);
            shp_unfold(kk, 0);
            assert(kat(ks, i) == nels(kk));
        }
    }
}
#fn Node::get_key_value -> r +where=K:Ord
    requires okn::<N>(), shp(*self, 0), sorted(nels(*self)), lawful_q::<K, Q>(),
    ensures
        match r {
            Some(e) => m_get(nels(*self), qcut::<K, Q>(*key)) == Some(*e),
            None => m_get(nels(*self), qcut::<K, Q>(*key)) is None,
        },
    decreases nh(*self)
@begin
    proof { lemma_qcut_mono::<K, Q>(*key); node(*self); shp_unfold(*self, 0); }
@loop 0
    invariant
        forall|j: int| 0 <= j < i ==> qcut::<K, Q>(*key)(#[trigger] self.elems[j].0) is Greater,
        okn::<N>(), shp(*self, 0), sorted(nels(*self)), lawful_q::<K, Q>(),
@body 0
    proof {
        let t = qcut::<K, Q>(*key);
        lemma_qcut_mono::<K, Q>(*key);
        node(*self);
        if !(t(self.elems[i as int].0) is Greater) { get_facts(*self, i as int, t); }
    }
@past 0
    proof { get_facts(*self, self.elems.len() as int, qcut::<K, Q>(*key)); }
#raw
// f is n with child i replaced
spec fn kid_upd<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, i: int) -> bool {
    0 <= i < n.kids.len() && f.kids@ == n.kids@.update(i, f.kids@[i]) && f.elems@ == n.elems@
}

proof fn upd_facts<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, i: int)
    requires kid_upd(n, f, i), fan(n),
    ensures
        nels(n) == pre(ksq(n.kids@), n.elems@, i) + nels(kd(n, i)) + suf(ksq(n.kids@), n.elems@, i),
        nels(f) == pre(ksq(n.kids@), n.elems@, i) + nels(kd(f, i)) + suf(ksq(n.kids@), n.elems@, i),
        nh(kd(f, i)) == nh(kd(n, i)) ==> nh(f) == nh(n),
        forall|lo: int| shp(n, lo) && nh(kd(f, i)) == nh(kd(n, i)) && shp(kd(f, i), N as int) ==> #[trigger] shp(f, lo),
{
    node(n);
    node(f);
    lemma_il(ksq(n.kids@), n.elems@, i);
    lemma_il_upd(ksq(n.kids@), n.elems@, i, nels(kd(f, i)));
    assert(ksq(f.kids@) =~= ksq(n.kids@).update(i, nels(kd(f, i))));
    if nh(kd(f, i)) == nh(kd(n, i)) {
        assert(nh(kd(f, 0)) == nh(kd(n, 0)));
        assert forall|lo: int| shp(n, lo) && shp(kd(f, i), N as int) implies #[trigger] shp(f, lo) by {
            shp_unfold(n, lo);
            shp_unfold(f, lo);
            assert forall|j: int| 0 <= j < f.kids.len() implies shp(#[trigger] kd(f, j), N as int) && nh(kd(f, j)) + 1 == nh(f) by {
                assert(f.kids@[j] == f.kids[j] && n.kids@[j] == n.kids[j]);
                assert(nh(kd(n, j)) + 1 == nh(n));
                if j == i { assert(kd(f, j) == kd(f, i)); }
            }
        }
    }
}

// what a mutable lookup leaves behind
proof fn getm_found<K: Ord, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, i: int, t: Cut<K>)
    requires
        sorted(nels(n)), mono(t), lawful::<K>(),
        0 <= i < n.elems.len(),
        0 < i ==> t(n.elems[i - 1].0) is Greater,
        t(n.elems[i].0) is Equal,
        f.kids@ == n.kids@, f.elems@ == n.elems@.update(i, f.elems@[i]),
    ensures
        nels(f) == nels(n).update(idx(nels(n), t), f.elems@[i]),
        nh(f) == nh(n),
        forall|lo: int| shp(n, lo) ==> #[trigger] shp(f, lo),
{
    node(n);
    node(f);
    let (ks, es) = (ksq(n.kids@), n.elems@);
    lemma_found(ks, es, i, t);
    let e = f.elems@[i];
    let (w, x) = (pre(ks, es, i) + kat(ks, i), kat(ks, i + 1) + suf(ks, es, i + 1));
    lemma_scan(ks, es, i, t);
    lemma_below_plus(pre(ks, es, i), kat(ks, i), t);
    lemma_above_plus(kat(ks, i + 1), suf(ks, es, i + 1), t);
    lemma_split(w, x, es[i], t);
    let e2 = f.elems@;
    lemma_il(ks, e2, i);
    lemma_pre_suf(ks, e2, i);
    lemma_pre_eq(ks, es, ks, e2, i);
    lemma_suf_eq(ks, es, i + 1, ks, e2, i + 1);
    assert(nels(f) =~= cat(w, e, x));
    assert(cat(w, es[i], x).update(w.len() as int, e) =~= cat(w, e, x));
    assert forall|lo: int| shp(n, lo) implies #[trigger] shp(f, lo) by {
        shp_same_kids(n, f, lo);
    }
}

proof fn shp_same_kids<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, lo: int)
    requires shp(n, lo), f.kids@ == n.kids@, f.elems.len() == n.elems.len(),
    ensures shp(f, lo), nh(f) == nh(n),
{
    node(n);
    node(f);
    shp_unfold(n, lo);
    shp_unfold(f, lo);
    assert(nh(kd(f, 0)) == nh(kd(n, 0)));
    assert forall|j: int| 0 <= j < f.kids.len() implies shp(#[trigger] kd(f, j), N as int) && nh(kd(f, j)) + 1 == nh(f) by {
        assert(kd(f, j) == kd(n, j));
    }
}

proof fn getm_desc<K: Ord, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, i: int, t: Cut<K>)
    requires
        sorted(nels(n)), mono(t), lawful::<K>(), fan(n),
        0 <= i <= n.elems.len(),
        0 < i ==> t(n.elems[i - 1].0) is Greater,
        i == n.elems.len() || t(n.elems[i].0) is Less,
        kid_upd(n, f, i),
    ensures
        nels(kd(n, i)) == nels(kd(f, i)) ==> nels(f) == nels(n),
        forall|e: (K, V)| has_key(nels(kd(n, i)), t) && nels(kd(f, i)) == #[trigger] nels(kd(n, i)).update(idx(nels(kd(n, i)), t), e) ==>
                    nels(f) == nels(n).update(idx(nels(n), t), e),
{
    let (ks, es) = (ksq(n.kids@), n.elems@);
    node(n);
    upd_facts(n, f, i);
    let (a, b) = (nels(kd(n, i)), nels(kd(f, i)));
    let (p, q) = (pre(ks, es, i), suf(ks, es, i));
    assert(kat(ks, i) == a);
    lemma_scan(ks, es, i, t);
    lemma_mid(p, a, q, t);
    assert forall|e: (K, V)| has_key(a, t) && b == #[trigger] a.update(idx(a, t), e) implies
                nels(f) == nels(n).update(idx(nels(n), t), e) by {
        assert(p + a.update(idx(a, t), e) + q =~= (p + a + q).update(p.len() + idx(a, t), e));
    }
}

proof fn getm_facts<K: Ord, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, i: int, t: Cut<K>)
    requires
        sorted(nels(n)), mono(t), lawful::<K>(), shp(n, 0),
        0 <= i <= n.elems.len(),
        0 < i ==> t(n.elems[i - 1].0) is Greater,
        i == n.elems.len() || !(t(n.elems[i].0) is Greater),
    ensures
        i < n.elems.len() && t(n.elems[i].0) is Equal && f.kids@ == n.kids@ && f.elems@ == n.elems@.update(i, f.elems@[i]) ==> {
            &&& nels(f) == nels(n).update(idx(nels(n), t), f.elems@[i])
            &&& nh(f) == nh(n)
            &&& forall|lo: int| shp(n, lo) ==> #[trigger] shp(f, lo)
        },
        (i == n.elems.len() || t(n.elems[i].0) is Less) && kid_upd(n, f, i)
            && nh(kd(f, i)) == nh(kd(n, i)) && (shp(kd(n, i), N as int) ==> shp(kd(f, i), N as int)) ==> {
            &&& nh(f) == nh(n)
            &&& forall|lo: int| shp(n, lo) ==> #[trigger] shp(f, lo)
            &&& nels(kd(n, i)) == nels(kd(f, i)) ==> nels(f) == nels(n)
            &&& forall|e: (K, V)| has_key(nels(kd(n, i)), t) && nels(kd(f, i)) == #[trigger] nels(kd(n, i)).update(idx(nels(kd(n, i)), t), e) ==>
                    nels(f) == nels(n).update(idx(nels(n), t), e)
        },
{
    shp_unfold(n, 0);
    if i < n.elems.len() && t(n.elems[i].0) is Equal && f.kids@ == n.kids@ && f.elems@ == n.elems@.update(i, f.elems@[i]) {
        getm_found(n, f, i, t);
    }
    if (i == n.elems.len() || t(n.elems[i].0) is Less) && kid_upd(n, f, i)
        && nh(kd(f, i)) == nh(kd(n, i)) && (shp(kd(n, i), N as int) ==> shp(kd(f, i), N as int)) {
        upd_facts(n, f, i);
        assert(shp(kd(n, i), N as int));
        getm_desc(n, f, i, t);
    }
}
#fn Node::get_mut -> r +where=K:Ord +noiso
    requires okn::<N>(), shp(*old(self), 0), sorted(nels(*old(self))), lawful_q::<K, Q>(),
    ensures
        match r {
            Some(e) => {
                let c = qcut::<K, Q>(*key);
                let s = nels(*old(self));
                &&& m_get(s, c) == Some(*e)
                &&& nels(*final(self)) == s.update(idx(s, c), *final(e))
                &&& nh(*final(self)) == nh(*old(self))
                &&& forall|lo: int| shp(*old(self), lo) ==> shp(*final(self), lo)
            },
            None => m_get(nels(*old(self)), qcut::<K, Q>(*key)) is None && nels(*final(self)) == nels(*old(self))
                && nh(*final(self)) == nh(*old(self))
                && forall|lo: int| shp(*old(self), lo) ==> shp(*final(self), lo),
        },
    decreases nh(*old(self))
@begin
    let ghost s0 = *self;
    let ghost fin = *final(self);
    proof { lemma_qcut_mono::<K, Q>(*key); node(*self); shp_unfold(*self, 0); }
@loop 0
    invariant
        *self == s0,
        forall|j: int| 0 <= j < i ==> qcut::<K, Q>(*key)(#[trigger] s0.elems[j].0) is Greater,
        okn::<N>(), shp(s0, 0), sorted(nels(s0)), lawful_q::<K, Q>(),
@body 0
    proof {
        let t = qcut::<K, Q>(*key);
        lemma_qcut_mono::<K, Q>(*key);
        node(*self);
        if !(t(self.elems[i as int].0) is Greater) { get_facts(*self, i as int, t); getm_facts(*self, fin, i as int, t); }
    }
@past 0
    proof { get_facts(*self, self.elems.len() as int, qcut::<K, Q>(*key)); getm_facts(*self, fin, self.elems.len() as int, qcut::<K, Q>(*key)); }

#raw
// all children well-formed, whatever the number of entries
spec fn kok<K, V, const N: usize>(n: Node<K, V, N>) -> bool { shpx(n, -1, 0) }

proof fn kok_shp<K, V, const N: usize>(n: Node<K, V, N>, lo: int)
    ensures shp(n, lo) == (kok(n) && lo <= n.elems.len() <= 2 * N + 1),
{
    shp_unfold(n, lo);
}

// n is a, x, b side by side
spec fn side<K, V, const N: usize>(n: Node<K, V, N>, a: Node<K, V, N>, x: (K, V), b: Node<K, V, N>) -> bool {
    &&& n.elems@ == a.elems@ + seq![x] + b.elems@
    &&& n.kids@ == a.kids@ + b.kids@
    &&& fan(a) && fan(b) && fan(n)
    &&& (a.kids.len() == 0) == (b.kids.len() == 0)
}

proof fn side_facts<K, V, const N: usize>(n: Node<K, V, N>, a: Node<K, V, N>, x: (K, V), b: Node<K, V, N>)
    requires side(n, a, x, b),
    ensures
        nels(n) == cat(nels(a), x, nels(b)),
        kok(n) ==> kok(a) && kok(b) && nh(a) == nh(n) && nh(b) == nh(n),
        kok(a) && kok(b) && nh(a) == nh(b) ==> kok(n) && nh(a) == nh(n),
{
    node(n);
    node(a);
    node(b);
    lemma_il_join(ksq(a.kids@), a.elems@, x, ksq(b.kids@), b.elems@);
    assert(ksq(n.kids@) =~= ksq(a.kids@) + ksq(b.kids@));
    let m = a.kids.len() as int;
    assert(forall|j: int| #![trigger kd(a, j)] 0 <= j < m ==> kd(a, j) == kd(n, j));
    assert(forall|j: int| #![trigger kd(b, j)] 0 <= j < b.kids.len() ==> kd(b, j) == kd(n, m + j));
    if kok(n) {
        assert forall|j: int| 0 <= j < a.kids.len() implies shp(#[trigger] kd(a, j), N as int) && nh(kd(a, j)) + 1 == nh(a) by {
            assert(kd(a, j) == kd(n, j));
            assert(kd(a, 0) == kd(n, 0));
        }
        assert forall|j: int| 0 <= j < b.kids.len() implies shp(#[trigger] kd(b, j), N as int) && nh(kd(b, j)) + 1 == nh(b) by {
            assert(kd(b, j) == kd(n, m + j));
            assert(kd(b, 0) == kd(n, m));
        }
        if n.kids.len() > 0 {
            assert(kd(a, 0) == kd(n, 0));
            assert(kd(b, 0) == kd(n, m));
            assert(nh(kd(n, m)) + 1 == nh(n));
        }
    }
    if kok(a) && kok(b) && nh(a) == nh(b) {
        if n.kids.len() > 0 { assert(kd(n, 0) == kd(a, 0)); }
        assert forall|j: int| 0 <= j < n.kids.len() implies shp(#[trigger] kd(n, j), N as int) && nh(kd(n, j)) + 1 == nh(n) by {
            if j < m { assert(kd(n, j) == kd(a, j)); } else { assert(kd(n, j) == kd(b, j - m)); }
        }
    }
}
#fn Node::split -> r
    requires okn::<N>(), kok(*old(self)), old(self).elems.len() == 2 * N + 2,
    ensures
        r is Split,
        r->Split_0 is Some,
        shp(*(r->Split_0->0), N as int),
        shp(*final(self), N as int),
        nh(*(r->Split_0->0)) == nh(*old(self)),
        nh(*final(self)) == nh(*old(self)),
        nels(*old(self)) == cat(nels(*(r->Split_0->0)), (r->Split_1, r->Split_2), nels(*final(self))),
@begin
    let ghost s0 = *self;
@tail
    proof {
        let a = *(__r->Split_0->0);
        let x = (__r->Split_1, __r->Split_2);
        assert(s0.elems@ =~= a.elems@ + seq![x] + self.elems@);
        assert(s0.kids@ =~= a.kids@ + self.kids@);
        side_facts(s0, a, x, *self);
        kok_shp(a, N as int);
        kok_shp(*self, N as int);
    }
#raw
// the scan stopped at i, the key is there
proof fn ins_found<K: Ord, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, i: int, k: K, v: V)
    requires
        sorted(nels(n)), lawful::<K>(),
        0 <= i < n.elems.len(),
        0 < i ==> kcut(k)(n.elems[i - 1].0) is Greater,
        kcut(k)(n.elems[i].0) is Equal,
    ensures
        m_get(nels(n), kcut(k)) == Some(n.elems[i]),
        f.kids@ == n.kids@ && f.elems@ =~= n.elems@.update(i, (k, v)) ==> {
            &&& nels(f) == m_ins(nels(n), k, v)
            &&& nh(f) == nh(n)
            &&& forall|lo: int| shp(n, lo) ==> #[trigger] shp(f, lo)
        },
{
    node(n);
    node(f);
    lemma_kcut_mono(k);
    lemma_found(ksq(n.kids@), n.elems@, i, kcut(k));
    lemma_found_ins(ksq(n.kids@), n.elems@, i, k, v);
    if f.kids@ == n.kids@ && f.elems@ =~= n.elems@.update(i, (k, v)) {
        if n.kids.len() > 0 { assert(kd(n, 0) == kd(f, 0)); }
        assert forall|lo: int| shp(n, lo) implies #[trigger] shp(f, lo) by { shp_same_kids(n, f, lo); }
    }
}

// the scan stopped at i, below the key there
proof fn ins_desc<K: Ord, V, const N: usize>(n: Node<K, V, N>, i: int, k: K, v: V)
    requires
        sorted(nels(n)), lawful::<K>(), fan(n),
        0 <= i <= n.elems.len(),
        0 < i ==> kcut(k)(n.elems[i - 1].0) is Greater,
        i == n.elems.len() || kcut(k)(n.elems[i].0) is Less,
    ensures
        n.kids.len() > 0 ==> {
            &&& sorted(nels(kd(n, i)))
            &&& m_get(nels(n), kcut(k)) == m_get(nels(kd(n, i)), kcut(k))
            &&& m_ins(nels(n), k, v) == pre(ksq(n.kids@), n.elems@, i) + m_ins(nels(kd(n, i)), k, v) + suf(ksq(n.kids@), n.elems@, i)
        },
        n.kids.len() == 0 ==> {
            &&& m_get(nels(n), kcut(k)) is None
            &&& m_ins(nels(n), k, v) == n.elems@.insert(i, (k, v))
        },
{
    node(n);
    let (ks, es) = (ksq(n.kids@), n.elems@);
    lemma_descend_ins(ks, es, i, k, v);
    if n.kids.len() == 0 {
        assert(ks =~= Seq::<Seq<(K, V)>>::empty());
        lemma_idx_empty(kat(ks, i), kcut(k));
        lemma_leaf_pre(es, i);
        lemma_suf_leaf(es, i);
        assert(m_ins(kat(ks, i), k, v) =~= seq![(k, v)]);
        assert(es.take(i) + seq![(k, v)] + es.skip(i) =~= es.insert(i, (k, v)));
    } else {
        assert(kat(ks, i) == nels(kd(n, i)));
    }
}

// a child's split is taken up: m has child i replaced, f has entry x and child c put before it
proof fn ins_up<K: Ord, V, const N: usize>(n: Node<K, V, N>, m: Node<K, V, N>, f: Node<K, V, N>, i: int, c: Arc<Node<K, V, N>>, x: (K, V))
    requires
        kok(n), kid_upd(n, m, i),
        shp(*c, N as int), shp(kd(m, i), N as int), nh(*c) == nh(kd(n, i)), nh(kd(m, i)) == nh(kd(n, i)),
        f.elems@ == m.elems@.insert(i, x), f.kids@ == m.kids@.insert(i, c),
    ensures
        nels(f) == pre(ksq(n.kids@), n.elems@, i) + cat(nels(*c), x, nels(kd(m, i))) + suf(ksq(n.kids@), n.elems@, i),
        kok(f), nh(f) == nh(n),
{
    upd_facts(n, m, i);
    node(n);
    node(m);
    node(f);
    let (ks, es) = (ksq(n.kids@), n.elems@);
    let k1 = ksq(m.kids@);
    lemma_il_ins(k1, es, i, ksq(f.kids@)[i], x);
    assert(ksq(f.kids@) =~= k1.insert(i, nels(*c)));
    assert(kat(k1, i) == nels(kd(m, i)));
    assert forall|j: int| 0 <= j < i implies kat(ks, j) == #[trigger] kat(k1, j) by { }
    lemma_pre_eq(ks, es, k1, es, i);
    assert forall|j: int| i < j <= es.len() implies kat(ks, j) == #[trigger] kat(k1, j - i + i) by { }
    lemma_suf_eq(ks, es, i, k1, es, i);
    assert(nh(f) == nh(n)) by {
        if i == 0 { assert(kd(f, 0) == *c); } else { assert(kd(f, 0) == kd(n, 0)); }
    }
    assert forall|j: int| 0 <= j < f.kids.len() implies shp(#[trigger] kd(f, j), N as int) && nh(kd(f, j)) + 1 == nh(f) by {
        if j < i { assert(kd(f, j) == kd(n, j)); }
        else if j == i { assert(nh(kd(n, i)) + 1 == nh(n)); }
        else if j == i + 1 { assert(kd(f, j) == kd(m, i)); assert(nh(kd(n, i)) + 1 == nh(n)); }
        else { assert(kd(f, j) == kd(n, j - 1)); }
    }
}

proof fn ins_leaf<K: Ord, V, const N: usize>(f: Node<K, V, N>)
    requires f.kids.len() == 0,
    ensures kok(f), nels(f) == f.elems@, nh(f) == 1,
{
    node(f);
}
#fn Node::insert -> r +noiso
    requires okn::<N>(), shp(*old(self), 0), sorted(nels(*old(self))), lawful::<K>(),
    ensures
        match r {
            InsertResult::Replaced(v) => {
                &&& m_get(nels(*old(self)), kcut(key)) is Some
                &&& v == (m_get(nels(*old(self)), kcut(key))->0).1
                &&& nels(*final(self)) == m_ins(nels(*old(self)), key, val)
                &&& nh(*final(self)) == nh(*old(self))
                &&& forall|lo: int| shp(*old(self), lo) ==> #[trigger] shp(*final(self), lo)
            },
            InsertResult::Absorbed => {
                &&& m_get(nels(*old(self)), kcut(key)) is None
                &&& nels(*final(self)) == m_ins(nels(*old(self)), key, val)
                &&& nh(*final(self)) == nh(*old(self))
                &&& forall|lo: int| shp(*old(self), lo) ==> #[trigger] shp(*final(self), lo)
            },
            InsertResult::Split(l, k, v) => {
                &&& m_get(nels(*old(self)), kcut(key)) is None
                &&& l is Some
                &&& shp(*(l->0), N as int)
                &&& shp(*final(self), N as int)
                &&& nh(*(l->0)) == nh(*old(self))
                &&& nh(*final(self)) == nh(*old(self))
                &&& cat(nels(*(l->0)), (k, v), nels(*final(self))) == m_ins(nels(*old(self)), key, val)
            },
        },
    decreases nh(*old(self))
@begin
    let ghost s0 = *self;
    let ghost fin = *final(self);
    let ghost k0 = key;
    let ghost v0 = val;
    proof { lemma_kcut_mono(key); node(*self); shp_unfold(*self, 0); kok_shp(*self, 0); }
@loop 0
    invariant
        *self == s0, key == k0, val == v0,
        0 <= ub_x <= s0.elems.len(),
        forall|j: int| 0 <= j < ub_x ==> kcut(k0)(#[trigger] s0.elems[j].0) is Greater,
        okn::<N>(), shp(s0, 0), sorted(nels(s0)), lawful::<K>(),
    ensures
        *self == s0, key == k0, val == v0,
        0 <= ub_x <= s0.elems.len(),
        0 < ub_x ==> kcut(k0)(s0.elems[ub_x - 1].0) is Greater,
        ub_x == s0.elems.len() || kcut(k0)(s0.elems[ub_x as int].0) is Less,
    decreases s0.elems.len() - ub_x
@body 0
    proof { if kcut(k0)(s0.elems[ub_x as int].0) is Equal { ins_found(s0, fin, ub_x as int, k0, v0); } }
@past 0
    proof {
        ins_desc(s0, ub_x as int, k0, v0);
        node(s0);
        if s0.kids.len() > 0 {
            shp_unfold(s0, 0);
            shp_unfold(kd(s0, ub_x as int), N as int);
            shp_unfold(kd(s0, ub_x as int), 0);
        }
    }
@before ?if let Split
    let ghost s1 = *self;
    proof {
        if s0.kids.len() > 0 {
            assert(kid_upd(s0, s1, ub_x as int));
            upd_facts(s0, s1, ub_x as int);
            assert(nh(kd(s1, ub_x as int)) == nh(kd(s0, ub_x as int)));
            assert(shp(kd(s1, ub_x as int), N as int));
        }
    }
@before ?if self.elems.len\(\) <=
    proof {
        if s0.kids.len() > 0 {
            ins_up(s0, s1, *self, ub_x as int, child->0, (k, v));
        } else {
            ins_leaf(*self);
        }
        assert forall|lo: int| shp(s0, lo) && self.elems.len() <= 2 * N + 1 implies #[trigger] shp(*self, lo) by {
            kok_shp(s0, lo);
            kok_shp(*self, lo);
        }
    }

#raw
// child `at` is one entry short, all else is well-formed
spec fn short<K, V, const N: usize>(n: Node<K, V, N>, at: int) -> bool {
    &&& 0 <= at < n.kids.len()
    &&& n.elems.len() >= 1
    &&& shpx(n, at, N - 1)
    &&& kd(n, at).elems.len() == N - 1
}

// entries move between the neighbours i and i+1 through the separator
spec fn rotated<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, i: int) -> bool {
    let (l, r, l2, r2) = (kd(n, i), kd(n, i + 1), kd(f, i), kd(f, i + 1));
    &&& 0 <= i < n.elems.len() && n.kids.len() == n.elems.len() + 1
    &&& f.elems@ =~= n.elems@.update(i, f.elems@[i])
    &&& f.kids@ =~= n.kids@.update(i, f.kids@[i]).update(i + 1, f.kids@[i + 1])
    &&& l.elems@ + seq![n.elems@[i]] + r.elems@ =~= l2.elems@ + seq![f.elems@[i]] + r2.elems@
    &&& l.kids@ + r.kids@ =~= l2.kids@ + r2.kids@
    &&& fan(l2) && fan(r2)
    &&& (l2.kids.len() == 0) == (r2.kids.len() == 0)
}

// the children of a node of height h
spec fn qok<K, V, const N: usize>(ks: Seq<Arc<Node<K, V, N>>>, h: nat) -> bool {
    forall|j: int| 0 <= j < ks.len() ==> shp(*#[trigger] ks[j], N as int) && nh(*ks[j]) + 1 == h
}

proof fn qok_kok<K, V, const N: usize>(n: Node<K, V, N>, h: nat)
    ensures
        kok(n) ==> qok(n.kids@, nh(n)),
        fan(n) && n.kids.len() > 0 && qok(n.kids@, h) ==> kok(n) && nh(n) == h,
        n.kids.len() == 0 ==> kok(n) && nh(n) == 1,
{
    node(n);
    assert(forall|j: int| #![trigger n.kids@[j]] #![trigger kd(n, j)] *n.kids@[j] == kd(n, j));
}

// the contents and children of two neighbours laid side by side
proof fn join_facts<K, V, const N: usize>(l: Node<K, V, N>, x: (K, V), r: Node<K, V, N>)
    requires fan(l), fan(r), (l.kids.len() == 0) == (r.kids.len() == 0),
    ensures
        il(ksq(l.kids@ + r.kids@), l.elems@ + seq![x] + r.elems@) == cat(nels(l), x, nels(r)),
        kok(l) && kok(r) && nh(l) == nh(r) ==> qok(l.kids@ + r.kids@, nh(l)),
{
    node(l);
    node(r);
    lemma_il_join(ksq(l.kids@), l.elems@, x, ksq(r.kids@), r.elems@);
    assert(ksq(l.kids@ + r.kids@) =~= ksq(l.kids@) + ksq(r.kids@));
    qok_kok(l, 0);
    qok_kok(r, 0);
}

proof fn rot_facts<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, i: int, x: int)
    requires
        rotated(n, f, i), shpx(n, x, N - 1), okn::<N>(), x == i || x == i + 1,
        N <= kd(f, i).elems.len() <= 2 * N + 1,
        N <= kd(f, i + 1).elems.len() <= 2 * N + 1,
    ensures
        nels(f) == nels(n), kok(f), nh(f) == nh(n),
{
    let (l, r, l2, r2) = (kd(n, i), kd(n, i + 1), kd(f, i), kd(f, i + 1));
    node(n);
    node(f);
    let (ks, es) = (ksq(n.kids@), n.elems@);
    lemma_il_upd2(ks, es, i, nels(l2), f.elems@[i], nels(r2));
    assert(ksq(f.kids@) =~= ks.update(i, nels(l2)).update(i + 1, nels(r2)));
    nbr_facts(n, i, x);
    join_facts(l, n.elems@[i], r);
    join_facts(l2, f.elems@[i], r2);
    assert(ks[i] == nels(l) && ks[i + 1] == nels(r));
    let q = l.kids@ + r.kids@;
    let h = nh(l);
    assert(q =~= l2.kids@ + r2.kids@);
    assert(qok(l2.kids@, h)) by {
        assert forall|j: int| 0 <= j < l2.kids@.len() implies shp(*#[trigger] l2.kids@[j], N as int) && nh(*l2.kids@[j]) + 1 == h by {
            assert((l2.kids@ + r2.kids@)[j] == l2.kids@[j]);
            assert(q[j] == l2.kids@[j]);
        }
    }
    assert(qok(r2.kids@, h)) by {
        assert forall|j: int| 0 <= j < r2.kids@.len() implies shp(*#[trigger] r2.kids@[j], N as int) && nh(*r2.kids@[j]) + 1 == h by {
            assert((l2.kids@ + r2.kids@)[l2.kids@.len() + j] == r2.kids@[j]);
            assert(q[l2.kids@.len() + j] == r2.kids@[j]);
        }
    }
    qok_kok(l, h);
    qok_kok(l2, h);
    qok_kok(r2, h);
    assert(q.len() == l.kids@.len() + r.kids@.len() && q.len() == l2.kids@.len() + r2.kids@.len());
    kok_shp(l2, N as int);
    kok_shp(r2, N as int);
    assert(nh(f) == nh(n)) by {
        if i == 0 { assert(kd(f, 0) == l2); } else { assert(kd(f, 0) == kd(n, 0)); }
    }
    assert forall|j: int| 0 <= j < f.kids.len() implies shp(#[trigger] kd(f, j), N as int) && nh(kd(f, j)) + 1 == nh(f) by {
        if j != i && j != i + 1 { assert(kd(f, j) == kd(n, j)); }
    }
}

// two neighbouring children, one of which may be short
proof fn nbr_facts<K, V, const N: usize>(n: Node<K, V, N>, i: int, x: int)
    requires shpx(n, x, N - 1), okn::<N>(), x == i || x == i + 1, 0 <= i < n.elems.len(), n.kids.len() > 0,
    ensures
        kok(kd(n, i)), kok(kd(n, i + 1)),
        fan(kd(n, i)), fan(kd(n, i + 1)),
        nh(kd(n, i)) == nh(kd(n, i + 1)),
        nh(kd(n, i)) + 1 == nh(n),
        (kd(n, i).kids.len() == 0) == (kd(n, i + 1).kids.len() == 0),
        i != x ==> N <= kd(n, i).elems.len() <= 2 * N + 1,
        i + 1 != x ==> N <= kd(n, i + 1).elems.len() <= 2 * N + 1,
        N - 1 <= kd(n, i).elems.len() <= 2 * N + 1,
        N - 1 <= kd(n, i + 1).elems.len() <= 2 * N + 1,
{
    let (l, r) = (kd(n, i), kd(n, i + 1));
    kok_shp(l, if i == x { N - 1 } else { N as int });
    kok_shp(r, if i + 1 == x { N - 1 } else { N as int });
    same_height_kids(l, r);
}

// nodes of the same height are both leaves or both branches
proof fn same_height_kids<K, V, const N: usize>(l: Node<K, V, N>, r: Node<K, V, N>)
    requires nh(l) == nh(r),
    ensures (l.kids.len() == 0) == (r.kids.len() == 0),
{
    node(l);
    node(r);
    if l.kids.len() > 0 { node(kd(l, 0)); }
    if r.kids.len() > 0 { node(kd(r, 0)); }
}

// the neighbours i and i+1 and the separator made into one child
spec fn merged<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, i: int) -> bool {
    let (l, r, m) = (kd(n, i), kd(n, i + 1), kd(f, i));
    &&& 0 <= i < n.elems.len() && n.kids.len() == n.elems.len() + 1
    &&& f.elems@ =~= n.elems@.remove(i)
    &&& f.kids@ =~= n.kids@.remove(i).update(i, f.kids@[i])
    &&& m.elems@ =~= l.elems@ + seq![n.elems@[i]] + r.elems@
    &&& m.kids@ =~= l.kids@ + r.kids@
}

proof fn merge_facts<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, i: int, x: int)
    requires
        merged(n, f, i), shpx(n, x, N - 1), okn::<N>(), x == i || x == i + 1,
        N <= kd(f, i).elems.len() <= 2 * N + 1,
    ensures
        nels(f) == nels(n), kok(f), nh(f) == nh(n),
{
    let (l, r, m) = (kd(n, i), kd(n, i + 1), kd(f, i));
    node(n);
    node(f);
    node(m);
    let (ks, es) = (ksq(n.kids@), n.elems@);
    lemma_il_merge(ks, es, i, nels(m));
    assert(ksq(f.kids@) =~= ks.remove(i).update(i, nels(m)));
    nbr_facts(n, i, x);
    join_facts(l, n.elems@[i], r);
    assert(ks[i] == nels(l) && ks[i + 1] == nels(r));
    assert(m.elems@ == l.elems@ + seq![n.elems@[i]] + r.elems@);
    assert(m.kids@ == l.kids@ + r.kids@);
    qok_kok(m, nh(l));
    qok_kok(l, nh(l));
    kok_shp(m, N as int);
    assert(nh(f) == nh(n)) by {
        if i == 0 { assert(kd(f, 0) == m); } else { assert(kd(f, 0) == kd(n, 0)); }
    }
    assert forall|j: int| 0 <= j < f.kids.len() implies shp(#[trigger] kd(f, j), N as int) && nh(kd(f, j)) + 1 == nh(f) by {
        if j < i { assert(kd(f, j) == kd(n, j)); }
        else if j > i { assert(kd(f, j) == kd(n, j + 1)); }
    }
}
#fn Node::rot_lf
    requires
        okn::<N>(), shpx(*old(self), idx as int, N - 1), idx < old(self).elems.len(), old(self).kids.len() > 0,
        kd(*old(self), idx as int).elems.len() == N - 1,
        kd(*old(self), idx as int + 1).elems.len() > N,
    ensures
        nels(*final(self)) == nels(*old(self)),
        kok(*final(self)),
        nh(*final(self)) == nh(*old(self)),
        final(self).elems.len() == old(self).elems.len(),
@begin
    let ghost s0 = *self;
    proof { nbr_facts(s0, idx as int, idx as int); }
@tail
    proof {
        assert(rotated(s0, *self, idx as int));
        rot_facts(s0, *self, idx as int, idx as int);
    }
#fn Node::rot_rt
    requires
        okn::<N>(), shpx(*old(self), idx as int + 1, N - 1), idx < old(self).elems.len(), old(self).kids.len() > 0,
        kd(*old(self), idx as int).elems.len() > N,
        kd(*old(self), idx as int + 1).elems.len() == N - 1,
    ensures
        nels(*final(self)) == nels(*old(self)),
        kok(*final(self)),
        nh(*final(self)) == nh(*old(self)),
        final(self).elems.len() == old(self).elems.len(),
@begin
    let ghost s0 = *self;
    proof { nbr_facts(s0, idx as int, idx as int + 1); }
@tail
    proof {
        assert(rotated(s0, *self, idx as int));
        rot_facts(s0, *self, idx as int, idx as int + 1);
    }
#fn Node::merge_kids
    requires
        okn::<N>(), at < old(self).elems.len(), old(self).kids.len() > 0,
        shpx(*old(self), at as int, N - 1) || shpx(*old(self), at as int + 1, N - 1),
        N <= kd(*old(self), at as int).elems.len() + 1 + kd(*old(self), at as int + 1).elems.len() <= 2 * N + 1,
    ensures
        nels(*final(self)) == nels(*old(self)),
        kok(*final(self)),
        nh(*final(self)) == nh(*old(self)),
        final(self).elems.len() == old(self).elems.len() - 1,
@begin
    let ghost s0 = *self;
@tail
    proof {
        assert(merged(s0, *self, at as int));
        if shpx(s0, at as int, N - 1) { merge_facts(s0, *self, at as int, at as int); }
        else { merge_facts(s0, *self, at as int, at as int + 1); }
    }
#fn Node::rebal -> r
    requires okn::<N>(), short(*old(self), at as int),
    ensures
        nels(*final(self)) == nels(*old(self)),
        kok(*final(self)),
        nh(*final(self)) == nh(*old(self)),
        old(self).elems.len() - 1 <= final(self).elems.len() <= old(self).elems.len(),
        r.0 == (final(self).elems.len() < N),
@begin
    proof {
        if at > 0 { nbr_facts(*self, at as int - 1, at as int); } else { nbr_facts(*self, at as int, at as int); }
    }
#raw
// m is n with child i changed by a removal
spec fn step<K, V, const N: usize>(n: Node<K, V, N>, m: Node<K, V, N>, i: int) -> bool {
    &&& kid_upd(n, m, i)
    &&& nh(kd(m, i)) == nh(kd(n, i))
    &&& kok(kd(m, i))
    &&& N - 1 <= kd(m, i).elems.len() <= 2 * N + 1
}

proof fn step_facts<K, V, const N: usize>(n: Node<K, V, N>, m: Node<K, V, N>, i: int)
    requires okn::<N>(), shp(n, 1), step(n, m, i),
    ensures
        nels(n) == pre(ksq(n.kids@), n.elems@, i) + nels(kd(n, i)) + suf(ksq(n.kids@), n.elems@, i),
        nels(m) == pre(ksq(n.kids@), n.elems@, i) + nels(kd(m, i)) + suf(ksq(n.kids@), n.elems@, i),
        nh(m) == nh(n),
        kd(m, i).elems.len() < N ==> short(m, i),
        kd(m, i).elems.len() >= N ==> kok(m),
{
    shp_unfold(n, 1);
    upd_facts(n, m, i);
    let lo = if kd(m, i).elems.len() < N { N - 1 } else { N as int };
    kok_shp(kd(m, i), lo);
    assert(nh(kd(n, i)) + 1 == nh(n));
    assert forall|j: int| 0 <= j < m.kids.len() implies shp(#[trigger] kd(m, j), if j == i { lo } else { N as int }) && nh(kd(m, j)) + 1 == nh(m) by {
        if j != i { assert(kd(m, j) == kd(n, j)); }
    }
    if lo == N { assert(kok(m)); } else { assert(shpx(m, i, N - 1)); }
}

// whatever a removal from child i leaves
proof fn steps<K, V, const N: usize>(n: Node<K, V, N>, i: int)
    requires okn::<N>(), shp(n, 1), 0 <= i < n.kids.len(),
    ensures
        nels(n) == pre(ksq(n.kids@), n.elems@, i) + nels(kd(n, i)) + suf(ksq(n.kids@), n.elems@, i),
        shp(kd(n, i), 1), shp(kd(n, i), N as int), nh(kd(n, i)) < nh(n), N <= kd(n, i).elems.len() <= 2 * N + 1,
        forall|m: Node<K, V, N>| #![trigger short(m, i)] #![trigger nels(m)] #![trigger kok(m)]
            step(n, m, i) ==> {
                &&& nels(m) == pre(ksq(n.kids@), n.elems@, i) + nels(kd(m, i)) + suf(ksq(n.kids@), n.elems@, i)
                &&& nh(m) == nh(n)
                &&& kd(m, i).elems.len() < N ==> short(m, i)
                &&& kd(m, i).elems.len() >= N ==> kok(m)
            },
{
    shp_unfold(n, 1);
    kok_shp(kd(n, i), N as int);
    kok_shp(kd(n, i), 1);
    assert forall|m: Node<K, V, N>| #![trigger short(m, i)] #![trigger nels(m)] #![trigger kok(m)] step(n, m, i) implies {
                &&& nels(m) == pre(ksq(n.kids@), n.elems@, i) + nels(kd(m, i)) + suf(ksq(n.kids@), n.elems@, i)
                &&& nh(m) == nh(n)
                &&& kd(m, i).elems.len() < N ==> short(m, i)
                &&& kd(m, i).elems.len() >= N ==> kok(m)
            } by { step_facts(n, m, i); }
    assert(n.kids@ =~= n.kids@.update(i, n.kids@[i]));
    upd_facts(n, n, i);
}

// what a removal from a node keeps
spec fn rm_kept<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, u: bool) -> bool {
    &&& kok(f)
    &&& nh(f) == nh(n)
    &&& n.elems.len() - 1 <= f.elems.len() <= n.elems.len()
    &&& u ==> f.elems.len() < N
    &&& !u ==> f.elems.len() >= N || f.elems.len() == n.elems.len()
}

proof fn leaf_rm<K, V, const N: usize>(n: Node<K, V, N>)
    requires n.kids.len() == 0,
    ensures
        nels(n) == n.elems@,
        forall|m: Node<K, V, N>| #![trigger kok(m)] #![trigger nels(m)] m.kids@ == n.kids@ ==> nels(m) == m.elems@ && kok(m) && nh(m) == nh(n),
{
    node(n);
    assert forall|m: Node<K, V, N>| #![trigger kok(m)] #![trigger nels(m)] m.kids@ == n.kids@ implies nels(m) == m.elems@ && kok(m) && nh(m) == nh(n) by { node(m); }
}

proof fn first_facts<K, V, const N: usize>(n: Node<K, V, N>)
    requires okn::<N>(), shp(n, 1),
    ensures
        n.kids.len() == 0 ==> nels(n).len() > 0,
        n.kids.len() > 0 ==> {
            let b = suf(ksq(n.kids@), n.elems@, 0);
            let l = n.kids.len() - 1;
            let a = pre(ksq(n.kids@), n.elems@, l);
            &&& l == n.elems.len()
            &&& nels(n) == nels(kd(n, 0)) + b
            &&& nels(n) == a + nels(kd(n, l))
            &&& forall|m: Node<K, V, N>| #![trigger nels(m)] step(n, m, 0) ==> nels(m) == nels(kd(m, 0)) + b
            &&& forall|m: Node<K, V, N>| #![trigger nels(m)] step(n, m, l) ==> nels(m) == a + nels(kd(m, l))
        },
{
    node(n);
    shp_unfold(n, 1);
    if n.kids.len() > 0 {
        let (ks, es) = (ksq(n.kids@), n.elems@);
        let l = n.kids.len() - 1;
        steps(n, 0);
        steps(n, l);
        lemma_end(ks, es);
        let (a, b) = (pre(ks, es, l), suf(ks, es, 0));
        assert(nels(n) =~= nels(kd(n, 0)) + b);
        assert(nels(n) =~= a + nels(kd(n, l)));
        assert forall|m: Node<K, V, N>| #![trigger nels(m)] step(n, m, 0) implies nels(m) == nels(kd(m, 0)) + b by {
            assert(nels(m) =~= nels(kd(m, 0)) + b);
        }
        assert forall|m: Node<K, V, N>| #![trigger nels(m)] step(n, m, l) implies nels(m) == a + nels(kd(m, l)) by {
            assert(nels(m) =~= a + nels(kd(m, l)));
        }
    }
}
#fn Node::pop_first -> r +noiso
    requires okn::<N>(), shp(*old(self), 1),
    ensures
        r is Some,
        nels(*old(self)).len() > 0,
        (r->0).0 == nels(*old(self))[0],
        nels(*final(self)) == nels(*old(self)).skip(1),
        rm_kept(*old(self), *final(self), (r->0).1.0),
    decreases nh(*old(self))
@begin
    let ghost s0 = *self;
    proof {
        shp_unfold(s0, 1);
        first_facts(s0);
        if s0.kids.len() > 0 { steps(s0, 0); } else { leaf_rm(s0); }
    }
#fn Node::pop_last -> r +noiso
    requires okn::<N>(), shp(*old(self), 1),
    ensures
        r is Some,
        nels(*old(self)).len() > 0,
        (r->0).0 == nels(*old(self)).last(),
        nels(*final(self)) == nels(*old(self)).drop_last(),
        rm_kept(*old(self), *final(self), (r->0).1.0),
    decreases nh(*old(self))
@begin
    let ghost s0 = *self;
    proof {
        shp_unfold(s0, 1);
        first_facts(s0);
        if s0.kids.len() > 0 { steps(s0, s0.kids.len() - 1); } else { leaf_rm(s0); }
    }
#raw
// m is n with child i changed by a removal and entry i replaced
spec fn step2<K, V, const N: usize>(n: Node<K, V, N>, m: Node<K, V, N>, i: int) -> bool {
    &&& 0 <= i < n.elems.len() && n.kids.len() > 0
    &&& m.kids@ == n.kids@.update(i, m.kids@[i])
    &&& m.elems@ == n.elems@.update(i, m.elems@[i])
    &&& nh(kd(m, i)) == nh(kd(n, i))
    &&& kok(kd(m, i))
    &&& N - 1 <= kd(m, i).elems.len() <= 2 * N + 1
}

proof fn step2_facts<K, V, const N: usize>(n: Node<K, V, N>, m: Node<K, V, N>, i: int)
    requires okn::<N>(), shp(n, 1), step2(n, m, i),
    ensures
        nels(n) == pre(ksq(n.kids@), n.elems@, i) + (nels(kd(n, i)) + seq![n.elems@[i]] + nels(kd(n, i + 1))) + suf(ksq(n.kids@), n.elems@, i + 1),
        nels(m) == pre(ksq(n.kids@), n.elems@, i) + (nels(kd(m, i)) + seq![m.elems@[i]] + nels(kd(n, i + 1))) + suf(ksq(n.kids@), n.elems@, i + 1),
        nh(m) == nh(n),
        kd(m, i).elems.len() < N ==> short(m, i),
        kd(m, i).elems.len() >= N ==> kok(m),
{
    shp_unfold(n, 1);
    node(n);
    node(m);
    let (ks, es) = (ksq(n.kids@), n.elems@);
    lemma_il_upd2(ks, es, i, nels(kd(m, i)), m.elems@[i], nels(kd(n, i + 1)));
    assert(ksq(m.kids@) =~= ks.update(i, nels(kd(m, i))).update(i + 1, nels(kd(n, i + 1))));
    let lo = if kd(m, i).elems.len() < N { N - 1 } else { N as int };
    kok_shp(kd(m, i), lo);
    assert(nh(kd(n, i)) + 1 == nh(n));
    assert(nh(m) == nh(n)) by { if i != 0 { assert(kd(m, 0) == kd(n, 0)); } }
    assert forall|j: int| 0 <= j < m.kids.len() implies shp(#[trigger] kd(m, j), if j == i { lo } else { N as int }) && nh(kd(m, j)) + 1 == nh(m) by {
        if j != i { assert(kd(m, j) == kd(n, j)); }
    }
    if lo == N { assert(kok(m)); } else { assert(shpx(m, i, N - 1)); }
}

proof fn rm_found_m<K: Ord, V, const N: usize>(n: Node<K, V, N>, m: Node<K, V, N>, i: int, t: Cut<K>)
    requires
        okn::<N>(), shp(n, 1), step2(n, m, i),
        m_rm(nels(n), t) == pre(ksq(n.kids@), n.elems@, i) + kat(ksq(n.kids@), i) + (kat(ksq(n.kids@), i + 1) + suf(ksq(n.kids@), n.elems@, i + 1)),
    ensures
        nels(kd(n, i)).len() > 0 && nels(kd(m, i)) == nels(kd(n, i)).drop_last() && m.elems@[i] == nels(kd(n, i)).last() ==> nels(m) == m_rm(nels(n), t),
        nh(m) == nh(n),
        kd(m, i).elems.len() < N ==> short(m, i),
        kd(m, i).elems.len() >= N ==> kok(m),
{
    step2_facts(n, m, i);
    let (ks, es) = (ksq(n.kids@), n.elems@);
    let (c, c2) = (nels(kd(n, i)), nels(kd(m, i)));
    if c.len() > 0 && c2 == c.drop_last() && m.elems@[i] == c.last() {
        assert(n.kids.len() == n.elems.len() + 1) by { shp_unfold(n, 1); }
        assert(kat(ks, i) == c && kat(ks, i + 1) == nels(kd(n, i + 1)));
        lemma_give_last(pre(ks, es, i), c, nels(kd(n, i + 1)), suf(ks, es, i + 1));
    }
}

// the scan stopped at i, the key is there
proof fn rm_found<K: Ord, V, const N: usize>(n: Node<K, V, N>, i: int, t: Cut<K>)
    requires
        okn::<N>(), shp(n, 1), sorted(nels(n)), mono(t), lawful::<K>(),
        0 <= i < n.elems.len(),
        0 < i ==> t(n.elems[i - 1].0) is Greater,
        t(n.elems[i].0) is Equal,
    ensures
        m_get(nels(n), t) == Some(n.elems[i]),
        n.kids.len() == 0 ==> m_rm(nels(n), t) == n.elems@.remove(i),
        n.kids.len() > 0 ==> {
            &&& shp(kd(n, i), 1) && shp(kd(n, i), N as int) && nh(kd(n, i)) < nh(n)
            &&& N <= kd(n, i).elems.len() <= 2 * N + 1
            &&& forall|m: Node<K, V, N>| #![trigger short(m, i)] #![trigger nels(m)] #![trigger kok(m)]
                step2(n, m, i) ==> {
                    &&& nels(kd(n, i)).len() > 0 && nels(kd(m, i)) == nels(kd(n, i)).drop_last() && m.elems@[i] == nels(kd(n, i)).last() ==> nels(m) == m_rm(nels(n), t)
                    &&& nh(m) == nh(n)
                    &&& kd(m, i).elems.len() < N ==> short(m, i)
                    &&& kd(m, i).elems.len() >= N ==> kok(m)
                }
        },
{
    node(n);
    shp_unfold(n, 1);
    let (ks, es) = (ksq(n.kids@), n.elems@);
    lemma_found(ks, es, i, t);
    if n.kids.len() == 0 {
        assert(ks =~= Seq::<Seq<(K, V)>>::empty());
        lemma_leaf_pre(es, i);
        lemma_suf_leaf(es, i + 1);
        assert(es.take(i) + kat(ks, i) + (kat(ks, i + 1) + es.skip(i + 1)) =~= es.remove(i));
    } else {
        steps(n, i);
        assert forall|m: Node<K, V, N>| #![trigger short(m, i)] #![trigger nels(m)] #![trigger kok(m)] step2(n, m, i) implies {
                    &&& nels(kd(n, i)).len() > 0 && nels(kd(m, i)) == nels(kd(n, i)).drop_last() && m.elems@[i] == nels(kd(n, i)).last() ==> nels(m) == m_rm(nels(n), t)
                    &&& nh(m) == nh(n)
                    &&& kd(m, i).elems.len() < N ==> short(m, i)
                    &&& kd(m, i).elems.len() >= N ==> kok(m)
                } by {
            rm_found_m(n, m, i, t);
        }
    }
}

// the scan stopped at i, before the entry there
proof fn rm_desc<K: Ord, V, const N: usize>(n: Node<K, V, N>, i: int, t: Cut<K>)
    requires
        okn::<N>(), shp(n, 1), sorted(nels(n)), mono(t), lawful::<K>(),
        0 <= i <= n.elems.len(),
        0 < i ==> t(n.elems[i - 1].0) is Greater,
        i == n.elems.len() || t(n.elems[i].0) is Less,
    ensures
        n.kids.len() == 0 ==> m_get(nels(n), t) is None,
        n.kids.len() > 0 ==> {
            &&& n.kids.len() == n.elems.len() + 1
            &&& sorted(nels(kd(n, i)))
            &&& m_get(nels(n), t) == m_get(nels(kd(n, i)), t)
            &&& shp(kd(n, i), 1) && shp(kd(n, i), N as int) && nh(kd(n, i)) < nh(n)
            &&& N <= kd(n, i).elems.len() <= 2 * N + 1
            &&& forall|m: Node<K, V, N>| #![trigger short(m, i)] #![trigger nels(m)] #![trigger kok(m)]
                step(n, m, i) ==> {
                    &&& nels(kd(m, i)) == m_rm(nels(kd(n, i)), t) ==> nels(m) == m_rm(nels(n), t)
                    &&& nels(kd(m, i)) == nels(kd(n, i)) ==> nels(m) == nels(n)
                    &&& nh(m) == nh(n)
                    &&& kd(m, i).elems.len() < N ==> short(m, i)
                    &&& kd(m, i).elems.len() >= N ==> kok(m)
                }
        },
{
    node(n);
    shp_unfold(n, 1);
    let (ks, es) = (ksq(n.kids@), n.elems@);
    lemma_descend(ks, es, i, t);
    if n.kids.len() == 0 {
        lemma_idx_empty(kat(ks, i), t);
    } else {
        assert(kat(ks, i) == nels(kd(n, i)));
        steps(n, i);
    }
}
#fn Node::remove -> r +noiso +where=K:Ord
    requires okn::<N>(), shp(*old(self), 1), sorted(nels(*old(self))), lawful_q::<K, Q>(),
    ensures
        match r {
            Some(x) => {
                let t = qcut::<K, Q>(*key);
                &&& m_get(nels(*old(self)), t) == Some(x.0)
                &&& nels(*final(self)) == m_rm(nels(*old(self)), t)
                &&& rm_kept(*old(self), *final(self), x.1.0)
            },
            None => m_get(nels(*old(self)), qcut::<K, Q>(*key)) is None && nels(*final(self)) == nels(*old(self))
                && rm_kept(*old(self), *final(self), false) && final(self).elems.len() == old(self).elems.len(),
        },
    decreases nh(*old(self))
@begin
    let ghost s0 = *self;
    let ghost t = qcut::<K, Q>(*key);
    proof { lemma_qcut_mono::<K, Q>(*key); node(s0); shp_unfold(s0, 1); kok_shp(s0, 1); if s0.kids.len() == 0 { leaf_rm(s0); } }
@loop 0
    invariant
        *self == s0, t == qcut::<K, Q>(*key),
        forall|j: int| 0 <= j < i ==> qcut::<K, Q>(*key)(#[trigger] s0.elems[j].0) is Greater,
        okn::<N>(), shp(s0, 1), sorted(nels(s0)), lawful_q::<K, Q>(),
@body 0
    proof {
        if t(self.elems[i as int].0) is Equal { rm_found(s0, i as int, t); }
        if t(self.elems[i as int].0) is Less { rm_desc(s0, i as int, t); }
    }
@past 0
    proof { rm_desc(s0, s0.elems.len() as int, t); }
#include btmap.inc
#raw
proof fn lemma_mwf<K: Ord, V, const N: usize>(m: BTreeMap<K, V, N>)
    requires mwf(m),
    ensures m.root is None <==> mels(m).len() == 0,
{
    if m.root is Some { nonempty(an(m.root->0)); }
}

// a node with an entry has a non-empty sequence
proof fn nonempty<K, V, const N: usize>(n: Node<K, V, N>)
    requires n.elems.len() > 0, fan(n),
    ensures nels(n).len() >= n.elems.len(),
{
    node(n);
    lemma_il_len(ksq(n.kids@), n.elems@);
}
#prop C05 C06
#fn BTreeMap::new -> r
    ensures mels(r) == Seq::<(K, V)>::empty(), r.len == 0, r.root is None,
#fn BTreeMap::len -> r
    ensures r == self.len,
#fn BTreeMap::is_empty -> r
    ensures r == (self.len == 0),
#fn BTreeMap::clear
    ensures mels(*final(self)) == Seq::<(K, V)>::empty(), final(self).len == 0, final(self).root is None,
#prop C06
#raw
spec fn root_get<K: Ord, V, const N: usize>(n: Node<K, V, N>, t: Cut<K>) -> bool {
    shp(n, 0) && sorted(nels(n)) && okn::<N>() && mono(t) && lawful::<K>()
}

#fn BTreeMap::contains_key -> r +where=K:Ord
    requires mwf(*self), lawful_q::<K, Q>(),
    ensures r == has_key(mels(*self), qcut::<K, Q>(*key)),
@begin
    let ghost t = qcut::<K, Q>(*key);
    proof { lemma_qcut_mono::<K, Q>(*key); lemma_idx_empty(Seq::<(K, V)>::empty(), t); if self.root is Some { kok_shp(an(self.root->0), 1); kok_shp(an(self.root->0), 0); } }
@loop 0
    invariant
        lawful_q::<K, Q>(), t == qcut::<K, Q>(*key), root_get(*curr, t),
        m_get(mels(*self), t) == m_get(nels(*curr), t),
    decreases nh(*curr)
@loop 1
    invariant
        lawful_q::<K, Q>(), t == qcut::<K, Q>(*key), root_get(*curr, t),
        m_get(mels(*self), t) == m_get(nels(*curr), t),
        0 <= i <= curr.elems.len(),
        0 < i ==> t(curr.elems[i - 1].0) is Greater,
    ensures
        lawful_q::<K, Q>(), t == qcut::<K, Q>(*key), root_get(*curr, t),
        m_get(mels(*self), t) == m_get(nels(*curr), t),
        0 <= i <= curr.elems.len(),
        0 < i ==> t(curr.elems[i - 1].0) is Greater,
        i == curr.elems.len() || t(curr.elems[i as int].0) is Less,
    decreases curr.elems.len() - i
@body 1
    proof { if t(curr.elems[i as int].0) is Equal { get_facts(*curr, i as int, t); } }
@past 1
    proof { get_facts(*curr, i as int, t); shp_unfold(*curr, 0); }
#fn BTreeMap::get_key_value -> r +where=K:Ord
    requires mwf(*self), lawful_q::<K, Q>(),
    ensures match m_get(mels(*self), qcut::<K, Q>(*key)) {
        None => r is None,
        Some(e) => r is Some && (*(r->0).0, *(r->0).1) == e,
    },
@begin
    proof { lemma_idx_empty(Seq::<(K, V)>::empty(), qcut::<K, Q>(*key)); if self.root is Some { kok_shp(an(self.root->0), 1); kok_shp(an(self.root->0), 0); } }
@closure 0 (x: &(K, V)) -> (r: (&K, &V))
    ensures (*r.0, *r.1) == *x,
#fn BTreeMap::get -> r +where=K:Ord
    requires mwf(*self), lawful_q::<K, Q>(),
    ensures match m_get(mels(*self), qcut::<K, Q>(*key)) {
        None => r is None,
        Some(e) => r is Some && *(r->0) == e.1,
    },
@closure 0 (e: (&K, &V)) -> (r: &V)
    ensures r == e.1,
#fn BTreeMap::first_key_value -> r +where=K:Ord
    requires mwf(*self),
    ensures
        mels(*self).len() == 0 ==> r is None,
        mels(*self).len() > 0 ==> r is Some && (*(r->0).0, *(r->0).1) == mels(*self)[0],
@begin
    proof { lemma_mwf(*self); }
@loop 0
    invariant okn::<N>(), shp(an(*curr), 1), mels(*self).len() > 0, nels(an(*curr)).len() > 0, nels(an(*curr))[0] == mels(*self)[0],
    ensures curr.kids.len() == 0,
    decreases nh(an(*curr))
@body 0
    proof { first_facts(an(*curr)); shp_unfold(an(*curr), 1); steps(an(*curr), 0); nonempty(kd(an(*curr), 0)); }
@tail
    proof { node(an(*curr)); shp_unfold(an(*curr), 1); }
#fn BTreeMap::last_key_value -> r +where=K:Ord
    requires mwf(*self),
    ensures
        mels(*self).len() == 0 ==> r is None,
        mels(*self).len() > 0 ==> r is Some && (*(r->0).0, *(r->0).1) == mels(*self).last(),
@begin
    proof { lemma_mwf(*self); }
@loop 0
    invariant okn::<N>(), shp(an(*curr), 1), mels(*self).len() > 0, nels(an(*curr)).len() > 0, nels(an(*curr)).last() == mels(*self).last(),
    ensures curr.kids.len() == 0,
    decreases nh(an(*curr))
@body 0
    proof { first_facts(an(*curr)); shp_unfold(an(*curr), 1); let l = curr.kids.len() - 1; steps(an(*curr), l); nonempty(kd(an(*curr), l)); }
@closure 0 (x: &(K, V)) -> (r: (&K, &V))
    ensures (*r.0, *r.1) == *x,
@tail
    proof { node(an(*curr)); shp_unfold(an(*curr), 1); }
#prop C05 C06 C07
#fn BTreeMap::get_mut -> r +where=K:Ord
    requires mwf(*old(self)), lawful_q::<K, Q>(),
    ensures
        r is Some <==> has_key(mels(*old(self)), qcut::<K, Q>(*key)),
        r is None ==> mels(*final(self)) == mels(*old(self)),
        r is Some ==> *(r->0) == (m_get(mels(*old(self)), qcut::<K, Q>(*key))->0).1
            && mels(*final(self)) == m_upd(mels(*old(self)), qcut::<K, Q>(*key), *final(r->0)),
        mwf(*final(self)), final(self).len == old(self).len,
@begin
    proof {
        let t = qcut::<K, Q>(*key);
        lemma_idx_empty(Seq::<(K, V)>::empty(), t);
        lemma_mwf(*self);
        if self.root is Some { kok_shp(an(self.root->0), 1); kok_shp(an(self.root->0), 0); }
        lemma_qcut_mono::<K, Q>(*key);
        lemma_idx(mels(*self), t);
        lemma_upd_sorted(mels(*self), t);
        assert forall|e: (K, V)| has_key(mels(*self), t) && e.0 == mels(*self)[idx(mels(*self), t)].0 implies
            #[trigger] mels(*self).update(idx(mels(*self), t), e) == m_upd(mels(*self), t, e.1) by { }
    }
@closure 0 (e: &mut (K, V)) -> (r: &mut V)
    ensures *r == old(e).1, *final(e) == (old(e).0, *final(r)),
#raw
// every node with one entry
proof fn one_entry<K, V, const N: usize>()
    requires okn::<N>(),
    ensures
        forall|m: Node<K, V, N>| #![trigger nels(m)] #![trigger shp(m, 1)] m.elems.len() == 1 && m.kids.len() == 0 ==>
            nels(m) == seq![m.elems@[0]] && shp(m, 1),
        forall|m: Node<K, V, N>| #![trigger nels(m)] #![trigger shp(m, 1)] m.elems.len() == 1 && m.kids.len() == 2
            && shp(kd(m, 0), N as int) && shp(kd(m, 1), N as int) && nh(kd(m, 0)) == nh(kd(m, 1)) ==>
            nels(m) == cat(nels(kd(m, 0)), m.elems@[0], nels(kd(m, 1))) && shp(m, 1),
{
    assert forall|m: Node<K, V, N>| #![trigger nels(m)] #![trigger shp(m, 1)] m.elems.len() == 1 && m.kids.len() == 0 implies
            nels(m) == seq![m.elems@[0]] && shp(m, 1) by {
        node(m);
        shp_unfold(m, 1);
        assert(m.elems@ =~= seq![m.elems@[0]]);
    }
    assert forall|m: Node<K, V, N>| #![trigger nels(m)] #![trigger shp(m, 1)] m.elems.len() == 1 && m.kids.len() == 2
            && shp(kd(m, 0), N as int) && shp(kd(m, 1), N as int) && nh(kd(m, 0)) == nh(kd(m, 1)) implies
            nels(m) == cat(nels(kd(m, 0)), m.elems@[0], nels(kd(m, 1))) && shp(m, 1) by {
        node(m);
        shp_unfold(m, 1);
        let (ks, es) = (ksq(m.kids@), m.elems@);
        lemma_il_upd2(ks, es, 0, ks[0], es[0], ks[1]);
        lemma_end(ks, es);
        assert(nels(m) =~= cat(ks[0], es[0], ks[1]));
        assert(nh(kd(m, 0)) + 1 == nh(m));
        assert forall|j: int| 0 <= j < m.kids.len() implies shp(#[trigger] kd(m, j), N as int) && nh(kd(m, j)) + 1 == nh(m) by {
            assert(j == 0 || j == 1);
        }
    }
}
#prop C05 C06 C07
#fn BTreeMap::insert -> r
    requires mwf(*old(self)), lawful::<K>(), old(self).len < usize::MAX,
    ensures
        mwf(*final(self)),
        mels(*final(self)) == m_ins(mels(*old(self)), key, val),
        r == val_of(m_get(mels(*old(self)), kcut(key))),
@begin
    proof {
        lemma_mwf(*self);
        lemma_ins_sorted(mels(*self), key, val);
        lemma_idx_empty(Seq::<(K, V)>::empty(), kcut(key));
        assert(m_ins(Seq::<(K, V)>::empty(), key, val) =~= seq![(key, val)]);
        one_entry::<K, V, N>();
        if self.root is Some { kok_shp(an(self.root->0), 1); kok_shp(an(self.root->0), 0); }
    }
#raw
// taking the only child of an empty root
proof fn root_pop<K, V, const N: usize>(n: Node<K, V, N>)
    requires okn::<N>(), kok(n), n.elems.len() <= 2 * N + 1,
    ensures
        n.elems.len() > 0 ==> shp(n, 1),
        n.elems.len() == 0 ==> {
            &&& n.kids.len() <= 1
            &&& n.kids.len() == 0 ==> nels(n) == Seq::<(K, V)>::empty()
            &&& n.kids.len() == 1 ==> nels(kd(n, 0)) == nels(n) && shp(kd(n, 0), 1)
        },
{
    kok_shp(n, 1);
    node(n);
    if n.elems.len() == 0 {
        if n.kids.len() == 0 {
            assert(nels(n) =~= Seq::<(K, V)>::empty());
        } else {
            lemma_end(ksq(n.kids@), n.elems@);
            kok_shp(kd(n, 0), N as int);
            kok_shp(kd(n, 0), 1);
            assert(nels(n) =~= nels(kd(n, 0)));
        }
    }
}

spec fn rm_post<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, r: Option<((K, V), IsUnderPop)>) -> bool {
    match r {
        Some(x) => rm_kept(n, f, x.1.0) && nels(f).len() + 1 == nels(n).len(),
        None => rm_kept(n, f, false) && f.elems.len() == n.elems.len() && nels(f) == nels(n),
    }
}
#fn BTreeMap::rm_and_rebal -> r +where=K:Ord
    requires
        mwf(*old(self)),
        forall|n: &mut Node<K, V, N>| old(self).root is Some && *n == an(old(self).root->0) ==> #[trigger] remover.requires((n,)),
        forall|n: &mut Node<K, V, N>, x: Option<((K, V), IsUnderPop)>| old(self).root is Some && *n == an(old(self).root->0) && #[trigger] remover.ensures((n,), x) ==>
            rm_post(*n, *final(n), x) && sorted(nels(*final(n))),
    ensures
        mwf(*final(self)),
        old(self).root is None ==> r is None && mels(*final(self)) == mels(*old(self)),
        old(self).root is Some ==> exists|n: &mut Node<K, V, N>, x: Option<((K, V), IsUnderPop)>| {
            &&& *n == an(old(self).root->0)
            &&& #[trigger] remover.ensures((n,), x)
            &&& mels(*final(self)) == nels(*final(n))
            &&& (x is None ==> r is None)
            &&& (x is Some ==> r == Some((x->0).0))
        },
@begin
    proof {
        lemma_mwf(*self);
        assert forall|m: Node<K, V, N>| #[trigger] shp(m, 1) == (kok(m) && 1 <= m.elems.len() <= 2 * N + 1) by { kok_shp(m, 1); }
    }
@before ?if is_under_pop
    proof { root_pop(*n); }
#prop C06
#fn BTreeMap::pop_first -> r +where=K:Ord
    requires mwf(*old(self)), lawful::<K>(),
    ensures
        mwf(*final(self)),
        r is None <==> mels(*old(self)).len() == 0,
        r is None ==> mels(*final(self)) == mels(*old(self)),
        r is Some ==> mels(*old(self)) == seq![r->0] + mels(*final(self)),
@begin
    proof {
        lemma_mwf(*self);
        lemma_ends_sorted(mels(*self));
        if self.root is Some { kok_shp(an(self.root->0), 1); }
    }
@closure 0 (n: &mut Node<K, V, N>) -> (r: Option<((K, V), IsUnderPop)>)
    requires okn::<N>(), shp(*old(n), 1),
    ensures
        r is Some,
        nels(*old(n)).len() > 0,
        (r->0).0 == nels(*old(n))[0],
        nels(*final(n)) == nels(*old(n)).skip(1),
        rm_kept(*old(n), *final(n), (r->0).1.0),
#fn BTreeMap::pop_last -> r +where=K:Ord
    requires mwf(*old(self)), lawful::<K>(),
    ensures
        mwf(*final(self)),
        r is None <==> mels(*old(self)).len() == 0,
        r is None ==> mels(*final(self)) == mels(*old(self)),
        r is Some ==> mels(*old(self)) == mels(*final(self)).push(r->0),
@begin
    proof {
        lemma_mwf(*self);
        lemma_ends_sorted(mels(*self));
        if self.root is Some { kok_shp(an(self.root->0), 1); }
    }
@closure 0 (n: &mut Node<K, V, N>) -> (r: Option<((K, V), IsUnderPop)>)
    requires okn::<N>(), shp(*old(n), 1),
    ensures
        r is Some,
        nels(*old(n)).len() > 0,
        (r->0).0 == nels(*old(n)).last(),
        nels(*final(n)) == nels(*old(n)).drop_last(),
        rm_kept(*old(n), *final(n), (r->0).1.0),
#prop C05 C06
#fn BTreeMap::remove -> r +where=K:Ord
    requires mwf(*old(self)), lawful_q::<K, Q>(),
    ensures
        mwf(*final(self)),
        mels(*final(self)) == m_rm(mels(*old(self)), qcut::<K, Q>(*key)),
        r == val_of(m_get(mels(*old(self)), qcut::<K, Q>(*key))),
@begin
    proof {
        lemma_mwf(*self);
        lemma_qcut_mono::<K, Q>(*key);
        lemma_rm_sorted(mels(*self), qcut::<K, Q>(*key));
        if self.root is Some { kok_shp(an(self.root->0), 1); }
    }
@closure 0 (n: &mut Node<K, V, N>) -> (r: Option<((K, V), IsUnderPop)>)
    requires okn::<N>(), shp(*old(n), 1), sorted(nels(*old(n))), lawful_q::<K, Q>(),
    ensures
        match r {
            Some(x) => {
                let t = qcut::<K, Q>(*key);
                &&& m_get(nels(*old(n)), t) == Some(x.0)
                &&& nels(*final(n)) == m_rm(nels(*old(n)), t)
                &&& rm_kept(*old(n), *final(n), x.1.0)
            },
            None => m_get(nels(*old(n)), qcut::<K, Q>(*key)) is None && nels(*final(n)) == nels(*old(n))
                && rm_kept(*old(n), *final(n), false) && final(n).elems.len() == old(n).elems.len(),
        },
@closure 1 (e: (K, V)) -> (r: V)
    ensures r == e.1,
#include btiter.inc
#include btrange.inc
#include btsubst.inc
#prop C05 C06 C07
#fn Default@BTreeMap::default -> r +name=default_
    ensures mels(r) == Seq::<(K, V)>::empty(), r.len == 0, r.root is None,
#raw
// `yields` of a map is what running its `into_iter` to the end gives: `drain_map` (btiter.inc) does that.
#[verifier::external]
impl<K, V, const N: usize> IntoIterator for BTreeMap<K, V, N> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter { unimplemented!() }
}
broadcast axiom fn axiom_yields_map<K: Ord, V, const N: usize>(m: BTreeMap<K, V, N>)
    requires mwf(m),
    ensures #[trigger] yields::<BTreeMap<K, V, N>>(m) == mels(m);
#prop C05 C07
#fn Extend@BTreeMap::extend
    requires mwf(*old(self)), lawful::<K>(), old(self).len + yields(iter).len() <= usize::MAX,
    ensures mwf(*final(self)), mels(*final(self)) == m_ext(mels(*old(self)), yields(iter)),
@sub \bin iter\b => in it__: vec_of(iter)
@begin
    let ghost s0 = mels(*self);
    let ghost src = yields(iter);
    proof { lemma_mwf(*self); }
@loop 0
    invariant
        it__.seq() == src, 0 <= it__.index@ <= src.len(),
        mwf(*self), lawful::<K>(), sorted(s0), s0.len() + src.len() <= usize::MAX,
        mels(*self) == m_ext(s0, src.take(it__.index@)),
@body 0
    proof {
        lemma_ext(s0, src.take(it__.index@));
        lemma_ext_step(s0, src, it__.index@);
    }
@past 0
    proof { assert(src.take(src.len() as int) =~= src); }
#fn FromIterator@BTreeMap::from_iter -> r
    requires okn::<N>(), lawful::<K>(), yields(iter).len() <= usize::MAX,
    ensures mwf(r), mels(r) == m_ext(Seq::<(K, V)>::empty(), yields(iter)),
@begin
    broadcast use lemma_sorted_empty;
#fn From@BTreeMap::from -> r
    requires okn::<N>(), lawful::<K>(),
    ensures mwf(r), mels(r) == m_ext(Seq::<(K, V)>::empty(), vs@),
@sub (\w+)\.into_iter\(\) => vec_arr(\1)
@begin
    broadcast use axiom_yields_vec;
#prop C07
#fn BTreeMap::append
    requires mwf(*old(self)), mwf(*old(other)), lawful::<K>(), old(self).len + old(other).len <= usize::MAX,
    ensures
        mwf(*final(self)), mwf(*final(other)), mels(*final(other)) == Seq::<(K, V)>::empty(),
        mels(*final(self)) == m_ext(mels(*old(self)), mels(*old(other))),
@begin
    broadcast use {axiom_yields_map, lemma_sorted_empty};
    proof { lemma_mwf(*other); }
#raw
// what retain may leave of entry e: the closure's verdict decides
#[verifier::prophetic]
spec fn decided<K, V, F: FnMut(&K, &mut V) -> bool>(f: F, k: K, v: V, w: V, keep: bool) -> bool {
    exists|m: &mut V| *m == v && *final(m) == w && #[trigger] f.ensures((&k, m), keep)
}
#[verifier::prophetic]
spec fn kept<K, V, F: FnMut(&K, &mut V) -> bool>(f: F, e: (K, V), o: Option<(K, V)>) -> bool {
    match o {
        None => exists|m: &mut V| *m == e.1 && #[trigger] f.ensures((&e.0, m), false),
        Some(x) => x.0 == e.0 && decided(f, e.0, e.1, x.1, true),
    }
}
#[verifier::prophetic]
spec fn is_retain<K: Ord, V, F: FnMut(&K, &mut V) -> bool>(f: F, s: Seq<(K, V)>, out: Seq<(K, V)>) -> bool {
    exists|o: Seq<Option<(K, V)>>| {
        &&& o.len() == s.len()
        &&& forall|i: int| 0 <= i < s.len() ==> kept(f, #[trigger] s[i], #[trigger] o[i])
        &&& out == #[trigger] somes(o)
    }
}

// collect() and partition() into maps, as std defines them
trait VCollect<K, V>: Sized {
    spec fn cseq(self) -> Seq<(K, V)>;
    fn vcollect<const N: usize>(self) -> (r: BTreeMap<K, V, N>)
        where K: Clone + Ord, V: Clone
        requires okn::<N>(), lawful::<K>(),
        ensures mwf(r), mels(r) == m_ext(Seq::<(K, V)>::empty(), self.cseq());
}
impl<K, V> VCollect<K, V> for Vec<(K, V)> {
    spec fn cseq(self) -> Seq<(K, V)> { self@ }
    fn vcollect<const N: usize>(self) -> (r: BTreeMap<K, V, N>) where K: Clone + Ord, V: Clone {
        broadcast use axiom_yields_vec;
        BTreeMap::from_iter(self)
    }
}
// calling the caller's closure (assumed pure: the call leaves it as it is)
#[verifier::external_body]
fn vcall<K, V, F: FnMut(&K, &mut V) -> bool>(f: &F, k: &K, v: &mut V) -> (r: bool)
    requires (*f).requires((k, v)),
    ensures (*f).ensures((k, v), r),
{ unimplemented!() }
#fn BTreeMap::retain
    requires
        mwf(*old(self)), lawful::<K>(),
        forall|k: &K, v: &mut V| #[trigger] f.requires((k, v)),
    ensures mwf(*final(self)), is_retain(f, mels(*old(self)), mels(*final(self))),
@begin
    broadcast use axiom_yields_map;
    proof { lemma_mwf(*self); }
    let ghost s0 = mels(*self);
@sub \bf\( => vcall(&f,
@closure 0 (kv: (K, V)) -> (r: Option<(K, V)>)
    requires forall|k: &K, v: &mut V| #[trigger] f.requires((k, v)),
    ensures kept(f, kv, r),
@tail
    proof {
        assert(exists|o: Seq<Option<(K, V)>>| {
            &&& o.len() == s0.len()
            &&& forall|i: int| 0 <= i < s0.len() ==> kept(f, #[trigger] s0[i], #[trigger] o[i])
            &&& mels(*self) == m_ext(Seq::<(K, V)>::empty(), #[trigger] somes(o))
        });
        let o = choose|o: Seq<Option<(K, V)>>| {
            &&& o.len() == s0.len()
            &&& forall|i: int| 0 <= i < s0.len() ==> kept(f, #[trigger] s0[i], #[trigger] o[i])
            &&& mels(*self) == m_ext(Seq::<(K, V)>::empty(), #[trigger] somes(o))
        };
        assert forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some implies (o[i]->0).0 == s0[i].0 by { assert(kept(f, s0[i], o[i])); }
        lemma_somes_sorted(s0, o);
        assert(Seq::<(K, V)>::empty() + somes(o) =~= somes(o));
        lemma_ext_sorted(Seq::<(K, V)>::empty(), somes(o));
    }
#raw
#[verifier::prophetic]
spec fn is_part<E, F: FnMut(&E) -> bool>(f: F, s: Seq<E>, o: Seq<bool>) -> bool {
    &&& o.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> f.ensures((&#[trigger] s[i],), #[trigger] o[i])
}
// partition() into two maps: each entry goes, in turn, to one or the other
trait VPartition<K, V>: Sized {
    spec fn pseq(self) -> Seq<(K, V)>;
    fn vpartition<F: FnMut(&(K, V)) -> bool, const N: usize>(self, f: F) -> (r: (BTreeMap<K, V, N>, BTreeMap<K, V, N>))
        where K: Clone + Ord, V: Clone
        requires
            okn::<N>(), lawful::<K>(),
            forall|i: int| 0 <= i < self.pseq().len() ==> f.requires((&(#[trigger] self.pseq()[i]),)),
        ensures
            mwf(r.0), mwf(r.1),
            exists|o: Seq<bool>| {
                &&& is_part(f, self.pseq(), o)
                &&& mels(r.0) == m_ext(Seq::<(K, V)>::empty(), #[trigger] picks(self.pseq(), o, true))
                &&& mels(r.1) == m_ext(Seq::<(K, V)>::empty(), #[trigger] picks(self.pseq(), o, false))
            };
}
impl<K, V> VPartition<K, V> for Vec<(K, V)> {
    spec fn pseq(self) -> Seq<(K, V)> { self@ }
    fn vpartition<F: FnMut(&(K, V)) -> bool, const N: usize>(self, f: F) -> (r: (BTreeMap<K, V, N>, BTreeMap<K, V, N>))
        where K: Clone + Ord, V: Clone
    {
        broadcast use {axiom_yields_vec, lemma_sorted_empty};
        let mut f = f;
        let ghost f0 = f;
        let ghost s = self.pseq();
        let mut a: Vec<(K, V)> = Vec::new();
        let mut b: Vec<(K, V)> = Vec::new();
        let ghost mut o: Seq<bool> = Seq::empty();
        for x in it: self
            invariant
                it.seq() == s, o.len() == it.index@, f == f0,
                forall|i: int| 0 <= i < s.len() ==> f0.requires((&(#[trigger] s[i]),)),
                forall|i: int| 0 <= i < it.index@ ==> f0.ensures((&#[trigger] s[i],), #[trigger] o[i]),
                a@ == picks(s.take(it.index@), o, true),
                b@ == picks(s.take(it.index@), o, false),
        {
            let ghost n = it.index@;
            let ghost o0 = o;
            let y = f(&x);
            proof {
                o = o.push(y);
                assert(s.take(n + 1).drop_last() =~= s.take(n));
                lemma_picks_eq(s.take(n), o0, o, true);
                lemma_picks_eq(s.take(n), o0, o, false);
            }
            if y { a.push(x); } else { b.push(x); }
        }
        proof { assert(s.take(s.len() as int) =~= s); assert(is_part(f0, s, o)); }
        (BTreeMap::from_iter(a), BTreeMap::from_iter(b))
    }
}
#fn BTreeMap::split_off -> r
    requires mwf(*old(self)), lawful_q::<K, Q>(),
    ensures
        mwf(*final(self)), mwf(r),
        mels(*old(self)) == mels(*final(self)) + mels(r),
        below(mels(*final(self)), qcut::<K, Q>(*key)),
        mels(r).len() > 0 ==> !(qcut::<K, Q>(*key)(mels(r)[0].0) is Greater),
@sub ([\w.]+) > ([\w.]+(?:\(\))?)\) => vgt(\1, \2))
@begin
    broadcast use axiom_yields_map;
    let ghost s0 = mels(*self);
    let ghost t = qcut::<K, Q>(*key);
    proof { lemma_mwf(*self); lemma_qcut_mono::<K, Q>(*key); lemma_cut_parts(s0, t); }
@closure 0 (kv: &(K, V)) -> (r: bool)
    ensures r == (qcut::<K, Q>(*key)(kv.0) is Greater),
@before ?\*self = a
    proof {
        assert(exists|o: Seq<bool>| {
            &&& o.len() == s0.len()
            &&& forall|i: int| 0 <= i < s0.len() ==> #[trigger] o[i] == (t(s0[i].0) is Greater)
            &&& mels(a) == m_ext(Seq::<(K, V)>::empty(), #[trigger] picks(s0, o, true))
            &&& mels(b) == m_ext(Seq::<(K, V)>::empty(), #[trigger] picks(s0, o, false))
        });
        let o = choose|o: Seq<bool>| {
            &&& o.len() == s0.len()
            &&& forall|i: int| 0 <= i < s0.len() ==> #[trigger] o[i] == (t(s0[i].0) is Greater)
            &&& mels(a) == m_ext(Seq::<(K, V)>::empty(), #[trigger] picks(s0, o, true))
            &&& mels(b) == m_ext(Seq::<(K, V)>::empty(), #[trigger] picks(s0, o, false))
        };
        lemma_picks_cut(s0, o, idx(s0, t));
        let (x, y) = (s0.take(idx(s0, t)), s0.skip(idx(s0, t)));
        assert(Seq::<(K, V)>::empty() + x =~= x);
        assert(Seq::<(K, V)>::empty() + y =~= y);
        lemma_ext_sorted(Seq::<(K, V)>::empty(), x);
        lemma_ext_sorted(Seq::<(K, V)>::empty(), y);
    }
#prop C12
#include map.inc
#include btsubst.inc
#include bthalf.inc
#prop C12
#fn Map@BTreeMap::contains_key_ -> r +where=K:Ord
    requires mwf(*old(self)), lawful_q::<K, Q>(),
    ensures
        r == has_key(mels(*old(self)), qcut::<K, Q>(*key)),
        mels(*final(self)) == mels(*old(self)), mwf(*final(self)),
#fn Map@BTreeMap::get_mut_ -> r +where=K:Ord
    requires mwf(*old(self)), lawful_q::<K, Q>(),
    ensures
        r is Some <==> has_key(mels(*old(self)), qcut::<K, Q>(*k)),
        r is None ==> mels(*final(self)) == mels(*old(self)),
        r is Some ==> *(r->0) == (m_get(mels(*old(self)), qcut::<K, Q>(*k))->0).1
            && mels(*final(self)) == m_upd(mels(*old(self)), qcut::<K, Q>(*k), *final(r->0)),
        mwf(*final(self)),
#fn Map@BTreeMap::insert_ -> r
    requires mwf(*old(self)), lawful::<K>(), old(self).len < usize::MAX,
    ensures
        mwf(*final(self)),
        mels(*final(self)) == m_ins(mels(*old(self)), key, val),
        r == val_of(m_get(mels(*old(self)), kcut(key))),
#fn Map@BTreeMap::new_ -> r +where=K:Ord
    requires okn::<N>(),
    ensures mwf(r), mels(r) == Seq::<(K, V)>::empty(),
@begin
    broadcast use lemma_sorted_empty;
#raw
// the contracts above are those of the trait: each method of this impl is the
// extracted one, called by name
impl<K: Clone + Ord, V: Clone, const N: usize> Map for BTreeMap<K, V, N> {
    type Key = K;
    type Value = V;
    type Half = Half<K, V, N>;
    spec fn ents(&self) -> Seq<(K, V)> { mels(*self) }
    spec fn good(&self) -> bool { mwf(*self) }
    spec fn mhl() -> int { 2 * N + 2 }
    spec fn sane() -> bool { okn::<N>() }
    proof fn lemma_good(&self) { lemma_mwf(*self); }
    spec fn hels(h: Half<K, V, N>) -> Seq<(K, V)> { iseq(h.h) }
    spec fn part(h: Half<K, V, N>, l: int) -> bool { ipart(h.h, l) && okn::<N>() }
    spec fn whole(h: Half<K, V, N>, l: int) -> bool { iwhole(h.h, l) && okn::<N>() }
    proof fn lemma_half(h: Half<K, V, N>, l: int, m: int) { if okn::<N>() { lemma_ihalf(h.h, l, m); } }
    fn max_half_len() -> usize { BTreeMap::<K, V, N>::MAX_HALF_LEN_() }
    #[verifier::external_body]
    fn check(&self) -> Result<(), String> { unimplemented!() }
    fn check_half(h: &Half<K, V, N>) -> Result<usize, String> { BTreeMap::<K, V, N>::check_half(h) }
    fn contains_key_<Q: Ord>(&mut self, key: &Q) -> bool where K: Borrow<Q> { BTreeMap::<K, V, N>::contains_key_(self, key) }
    fn get_mut_<Q: Ord>(&mut self, key: &Q) -> Option<&mut V> where K: Borrow<Q> { BTreeMap::<K, V, N>::get_mut_(self, key) }
    fn insert_(&mut self, key: K, val: V) -> Option<V> { proof { lemma_mwf(*self); } BTreeMap::<K, V, N>::insert_(self, key, val) }
    fn new_() -> Self { BTreeMap::<K, V, N>::new_() }
    fn make_half(elems: &mut Vec<(K, V)>) -> Half<K, V, N> { BTreeMap::<K, V, N>::make_half(elems) }
    fn make_whole(h: Half<K, V, N>, len: usize) -> Self { BTreeMap::<K, V, N>::make_whole(h, len) }
    fn stitch(lf: Half<K, V, N>, rt: Half<K, V, N>) -> Half<K, V, N> {
        proof {
            let a = iseq(lf.h).len() as int;
            let b = choose|b: int| #[trigger] Self::part(rt, b) && b <= a <= b + 1 && 2 * N + 2 < a + b <= usize::MAX;
            assert(meet(rt.h, a, b));
        }
        let ghost (p0, p1) = (lf, rt);
        let r = BTreeMap::<K, V, N>::stitch(lf, rt);
        proof {
            let a = iseq(p0.h).len() as int;
            assert forall|b: int| #[trigger] Self::part(p1, b) && b <= a <= b + 1 && 2 * N + 2 < a + b <= usize::MAX implies
                Self::part(r, a + b) && (Self::whole(p1, b) ==> Self::whole(r, a + b)) by {
                assert(meet(p1.h, a, b));
            }
        }
        r
    }
}
#fn BTreeMap::entry -> r
    ensures *r.map == *old(self), *final(r.map) == *final(self), r.key == key,
#fn BTreeMap::first_entry -> r
    requires mwf(*old(self)),
    ensures
        mels(*old(self)).len() == 0 ==> r is None && *final(self) == *old(self),
        mels(*old(self)).len() > 0 ==> r is Some && *(r->0).map == *old(self) && *final((r->0).map) == *final(self)
            && (r->0).key == mels(*old(self))[0].0,
#fn BTreeMap::last_entry -> r
    requires mwf(*old(self)),
    ensures
        mels(*old(self)).len() == 0 ==> r is None && *final(self) == *old(self),
        mels(*old(self)).len() > 0 ==> r is Some && *(r->0).map == *old(self) && *final((r->0).map) == *final(self)
            && (r->0).key == mels(*old(self)).last().0,
#include entry.inc
#include btcmp.inc
#include setops.inc
#include setbase.inc
#include btset.inc
#include footer.inc
