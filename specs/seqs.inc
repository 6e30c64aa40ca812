#raw
// ---------------------------------------------------------------------------
// A node's in-order sequence: child 0, entry 0, child 1, entry 1, ...
// Missing children (leaves) contribute nothing.
// ---------------------------------------------------------------------------
pub open spec fn kat<E>(ks: Seq<Seq<E>>, i: int) -> Seq<E> {
    if 0 <= i < ks.len() { ks[i] } else { Seq::empty() }
}

// everything before child i
pub open spec fn pre<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int) -> Seq<E>
    decreases i
{
    if i <= 0 { Seq::empty() } else { pre(ks, es, i - 1) + kat(ks, i - 1) + seq![es[i - 1]] }
}

// everything after child i
pub open spec fn suf<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int) -> Seq<E>
    decreases es.len() - i
{
    if i >= es.len() { Seq::empty() } else { seq![es[i]] + kat(ks, i + 1) + suf(ks, es, i + 1) }
}

pub open spec fn il<E>(ks: Seq<Seq<E>>, es: Seq<E>) -> Seq<E> { kat(ks, 0) + suf(ks, es, 0) }

// the sequence, cut open at child i
pub proof fn lemma_il<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int)
    requires 0 <= i <= es.len(),
    ensures il(ks, es) == pre(ks, es, i) + kat(ks, i) + suf(ks, es, i),
    decreases i
{
    if i == 0 {
        assert(il(ks, es) =~= pre(ks, es, 0) + kat(ks, 0) + suf(ks, es, 0));
    } else {
        lemma_il(ks, es, i - 1);
        assert(pre(ks, es, i - 1) + kat(ks, i - 1) + suf(ks, es, i - 1) =~= pre(ks, es, i) + kat(ks, i) + suf(ks, es, i));
    }
}

// unfoldings at i
pub proof fn lemma_pre_suf<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int)
    ensures
        i < es.len() ==> suf(ks, es, i) == seq![es[i]] + kat(ks, i + 1) + suf(ks, es, i + 1),
        i >= es.len() ==> suf(ks, es, i) == Seq::<E>::empty(),
        0 < i ==> pre(ks, es, i) == pre(ks, es, i - 1) + kat(ks, i - 1) + seq![es[i - 1]],
        i <= 0 ==> pre(ks, es, i) == Seq::<E>::empty(),
{
}

pub proof fn lemma_pre_eq<E>(ks: Seq<Seq<E>>, es: Seq<E>, k2: Seq<Seq<E>>, e2: Seq<E>, i: int)
    requires
        forall|j: int| 0 <= j < i ==> kat(ks, j) == #[trigger] kat(k2, j),
        forall|j: int| 0 <= j < i ==> es[j] == #[trigger] e2[j],
    ensures pre(ks, es, i) == pre(k2, e2, i),
    decreases i
{
    if i > 0 {
        lemma_pre_eq(ks, es, k2, e2, i - 1);
        assert(kat(ks, i - 1) == kat(k2, i - 1));
        assert(es[i - 1] == e2[i - 1]);
    }
}

// the entries and children after child i of one node are those after child i2 of another
pub proof fn lemma_suf_eq<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int, k2: Seq<Seq<E>>, e2: Seq<E>, i2: int)
    requires
        es.len() - i == e2.len() - i2, 0 <= i, 0 <= i2,
        forall|j: int| i < j <= es.len() ==> kat(ks, j) == #[trigger] kat(k2, j - i + i2),
        forall|j: int| i <= j < es.len() ==> es[j] == #[trigger] e2[j - i + i2],
    ensures suf(ks, es, i) == suf(k2, e2, i2),
    decreases es.len() - i
{
    if i < es.len() {
        assert(kat(ks, i + 1) == kat(k2, (i + 1) - i + i2));
        assert(es[i] == e2[i - i + i2]);
        assert forall|j: int| i + 1 < j <= es.len() implies kat(ks, j) == #[trigger] kat(k2, j - (i + 1) + (i2 + 1)) by {
            assert(kat(ks, j) == kat(k2, j - i + i2));
        }
        assert forall|j: int| i + 1 <= j < es.len() implies es[j] == #[trigger] e2[j - (i + 1) + (i2 + 1)] by {
            assert(es[j] == e2[j - i + i2]);
        }
        lemma_suf_eq(ks, es, i + 1, k2, e2, i2 + 1);
    }
}

// a leaf is its entries
pub proof fn lemma_il_leaf<E>(es: Seq<E>)
    ensures il(Seq::<Seq<E>>::empty(), es) == es,
{
    lemma_suf_leaf(es, 0);
    assert(es.skip(0) =~= es);
    assert(il(Seq::<Seq<E>>::empty(), es) =~= es);
}

pub proof fn lemma_suf_leaf<E>(es: Seq<E>, i: int)
    requires 0 <= i <= es.len(),
    ensures suf(Seq::<Seq<E>>::empty(), es, i) == es.skip(i),
    decreases es.len() - i
{
    if i < es.len() {
        lemma_suf_leaf(es, i + 1);
        assert(suf(Seq::<Seq<E>>::empty(), es, i) =~= es.skip(i));
    } else {
        assert(es.skip(i) =~= Seq::<E>::empty());
    }
}

// two nodes side by side around a separator
pub proof fn lemma_il_join<E>(ka: Seq<Seq<E>>, ea: Seq<E>, x: E, kb: Seq<Seq<E>>, eb: Seq<E>)
    requires ka.len() == ea.len() + 1 || ka.len() == 0 && kb.len() == 0,
    ensures il(ka + kb, ea + seq![x] + eb) == il(ka, ea) + seq![x] + il(kb, eb),
{
    let (ks, es) = (ka + kb, ea + seq![x] + eb);
    let m = ea.len() as int;
    lemma_il(ks, es, m);
    lemma_il(ka, ea, m);
    assert forall|j: int| 0 <= j < m implies kat(ks, j) == #[trigger] kat(ka, j) by { }
    assert forall|j: int| 0 <= j < m implies es[j] == #[trigger] ea[j] by { }
    lemma_pre_eq(ks, es, ka, ea, m);
    lemma_pre_suf(ks, es, m);
    lemma_pre_suf(ka, ea, m);
    assert forall|j: int| m + 1 < j <= es.len() implies kat(ks, j) == #[trigger] kat(kb, j - (m + 1) + 0) by { }
    assert forall|j: int| m + 1 <= j < es.len() implies es[j] == #[trigger] eb[j - (m + 1) + 0] by { }
    lemma_suf_eq(ks, es, m + 1, kb, eb, 0);
    assert(kat(ks, m) == kat(ka, m));
    assert(kat(ks, m + 1) == kat(kb, 0));
    assert(il(ks, es) =~= il(ka, ea) + seq![x] + il(kb, eb));
}

// the target's place in a + b + c, when a is below it and c above
pub proof fn lemma_mid<K: Ord, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, c: Seq<(K, V)>, t: Cut<K>)
    requires below(a, t), above(c, t), mono(t), lawful::<K>(), sorted(a + b + c),
    ensures
        sorted(b),
        0 <= idx(b, t) <= b.len(),
        idx(a + b + c, t) == a.len() + idx(b, t),
        m_get(a + b + c, t) == m_get(b, t),
        m_rm(a + b + c, t) == a + m_rm(b, t) + c,
{
    lemma_sorted_plus(a + b, c);
    lemma_sorted_plus(a, b);
    lemma_idx(b, t);
    let s = a + b + c;
    let n = a.len() + idx(b, t);
    reveal(below);
    reveal(above);
    assert forall|i: int| 0 <= i < n implies t(#[trigger] s[i].0) is Greater by {
        if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); }
    }
    if n < s.len() {
        if idx(b, t) < b.len() { assert(s[n] == b[idx(b, t)]); } else { assert(s[n] == c[0]); }
    }
    lemma_idx_unique(s, t, n);
    if has_key(b, t) {
        assert(s[n] == b[idx(b, t)]);
        assert(m_rm(s, t) =~= a + m_rm(b, t) + c);
    } else {
        if idx(b, t) < b.len() { assert(s[n] == b[idx(b, t)]); }
        assert(!has_key(s, t));
        assert(m_rm(s, t) =~= a + m_rm(b, t) + c);
    }
}

pub proof fn lemma_mid_ins<K: Ord, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, c: Seq<(K, V)>, k: K, v: V)
    requires below(a, kcut(k)), above(c, kcut(k)), lawful::<K>(), sorted(a + b + c),
    ensures
        sorted(b),
        m_get(a + b + c, kcut(k)) == m_get(b, kcut(k)),
        m_ins(a + b + c, k, v) == a + m_ins(b, k, v) + c,
{
    lemma_kcut_mono(k);
    lemma_mid(a, b, c, kcut(k));
    let s = a + b + c;
    let n = idx(s, kcut(k));
    if has_key(b, kcut(k)) {
        assert(s[n] == b[idx(b, kcut(k))]);
    } else if idx(b, kcut(k)) < b.len() {
        assert(s[n] == b[idx(b, kcut(k))]);
    }
    assert(m_ins(s, k, v) =~= a + m_ins(b, k, v) + c);
}

// a single entry
pub proof fn lemma_one<K: Ord, V>(e: (K, V), t: Cut<K>)
    requires t(e.0) is Equal,
    ensures
        m_get(seq![e], t) == Some(e),
        m_rm(seq![e], t) == Seq::<(K, V)>::empty(),
{
    let s = seq![e];
    lemma_idx_unique(s, t, 0);
    assert(s[0] == e);
    assert(m_rm(s, t) =~= Seq::<(K, V)>::empty());
}

pub proof fn lemma_one_ins<K: Ord, V>(e: (K, V), k: K, v: V)
    requires kcut(k)(e.0) is Equal,
    ensures m_ins(seq![e], k, v) == seq![(k, v)],
{
    let s = seq![e];
    lemma_idx_unique(s, kcut(k), 0);
    assert(s[0] == e);
    assert(m_ins(s, k, v) =~= seq![(k, v)]);
}

// what the scan of a node's entries establishes about the whole
pub proof fn lemma_scan<K: Ord, V>(ks: Seq<Seq<(K, V)>>, es: Seq<(K, V)>, i: int, t: Cut<K>)
    requires
        sorted(il(ks, es)), mono(t), lawful::<K>(),
        0 <= i <= es.len(),
        0 < i ==> t(es[i - 1].0) is Greater,
    ensures
        below(pre(ks, es, i), t),
        i < es.len() && t(es[i].0) is Less ==> above(suf(ks, es, i), t),
        i == es.len() ==> above(suf(ks, es, i), t),
        i < es.len() && t(es[i].0) is Equal ==> below(kat(ks, i), t) && above(kat(ks, i + 1), t) && above(suf(ks, es, i + 1), t),
{
    lemma_il(ks, es, i);
    lemma_pre_suf(ks, es, i);
    let (p, k, s) = (pre(ks, es, i), kat(ks, i), suf(ks, es, i));
    reveal(sorted);
    reveal(mono);
    reveal(below);
    reveal(above);
    let w = p + k + s;
    assert forall|j: int| 0 <= j < p.len() implies t(#[trigger] p[j].0) is Greater by {
        let e = es[i - 1];
        let m = p.len() - 1;
        assert(p[m] == e);
        if j < m {
            assert(w[j] == p[j] && w[m] == e);
            assert(lt(p[j].0, e.0));
        }
    }
    if i < es.len() {
        let e = es[i];
        let m = p.len() + k.len();
        assert(s[0] == e);
        assert(w[m as int] == e);
        if t(e.0) is Less {
            assert forall|j: int| 0 <= j < s.len() implies t(#[trigger] s[j].0) is Less by {
                assert(w[m + j] == s[j]);
                if j > 0 { assert(lt(e.0, s[j].0)); }
            }
        }
        if t(e.0) is Equal {
            assert forall|j: int| 0 <= j < k.len() implies t(#[trigger] k[j].0) is Greater by {
                assert(w[p.len() + j] == k[j]);
                assert(lt(k[j].0, e.0));
            }
            let k2 = kat(ks, i + 1);
            let s2 = suf(ks, es, i + 1);
            assert forall|j: int| 0 <= j < k2.len() implies t(#[trigger] k2[j].0) is Less by {
                assert(s[1 + j] == k2[j]);
                assert(w[m + 1 + j] == k2[j]);
                assert(lt(e.0, k2[j].0));
            }
            assert forall|j: int| 0 <= j < s2.len() implies t(#[trigger] s2[j].0) is Less by {
                assert(s[1 + k2.len() + j] == s2[j]);
                assert(w[m + 1 + k2.len() + j] == s2[j]);
                assert(lt(e.0, s2[j].0));
            }
        }
    }
}

pub proof fn lemma_below_plus<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, t: Cut<K>)
    ensures below(a + b, t) == (below(a, t) && below(b, t)),
{
    reveal(below);
    let s = a + b;
    assert(forall|i: int| 0 <= i < a.len() ==> s[i] == a[i]);
    assert(forall|i: int| 0 <= i < b.len() ==> s[a.len() + i] == b[i]);
    if below(s, t) {
        assert forall|i: int| 0 <= i < a.len() implies t(#[trigger] a[i].0) is Greater by { assert(s[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies t(#[trigger] b[i].0) is Greater by { assert(s[a.len() + i] == b[i]); }
    }
}

pub proof fn lemma_above_plus<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, t: Cut<K>)
    ensures above(a + b, t) == (above(a, t) && above(b, t)),
{
    reveal(above);
    let s = a + b;
    assert(forall|i: int| 0 <= i < a.len() ==> s[i] == a[i]);
    assert(forall|i: int| 0 <= i < b.len() ==> s[a.len() + i] == b[i]);
    if above(s, t) {
        assert forall|i: int| 0 <= i < a.len() implies t(#[trigger] a[i].0) is Less by { assert(s[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies t(#[trigger] b[i].0) is Less by { assert(s[a.len() + i] == b[i]); }
    }
}

// the scan stopped at entry i with an equal key
pub proof fn lemma_found<K: Ord, V>(ks: Seq<Seq<(K, V)>>, es: Seq<(K, V)>, i: int, t: Cut<K>)
    requires
        sorted(il(ks, es)), mono(t), lawful::<K>(),
        0 <= i < es.len(),
        0 < i ==> t(es[i - 1].0) is Greater,
        t(es[i].0) is Equal,
    ensures
        m_get(il(ks, es), t) == Some(es[i]),
        m_rm(il(ks, es), t) == pre(ks, es, i) + kat(ks, i) + (kat(ks, i + 1) + suf(ks, es, i + 1)),
        il(ks, es) == cat(pre(ks, es, i) + kat(ks, i), es[i], kat(ks, i + 1) + suf(ks, es, i + 1)),
{
    lemma_scan(ks, es, i, t);
    lemma_il(ks, es, i);
    lemma_pre_suf(ks, es, i);
    let w = pre(ks, es, i) + kat(ks, i);
    let x = kat(ks, i + 1) + suf(ks, es, i + 1);
    assert(il(ks, es) =~= w + seq![es[i]] + x);
    lemma_below_plus(pre(ks, es, i), kat(ks, i), t);
    lemma_above_plus(kat(ks, i + 1), suf(ks, es, i + 1), t);
    lemma_mid(w, seq![es[i]], x, t);
    lemma_one(es[i], t);
    assert(w + Seq::<(K, V)>::empty() + x =~= w + x);
}

pub proof fn lemma_found_ins<K: Ord, V>(ks: Seq<Seq<(K, V)>>, es: Seq<(K, V)>, i: int, k: K, v: V)
    requires
        sorted(il(ks, es)), lawful::<K>(),
        0 <= i < es.len(),
        0 < i ==> kcut(k)(es[i - 1].0) is Greater,
        kcut(k)(es[i].0) is Equal,
    ensures
        m_ins(il(ks, es), k, v) == il(ks, es.update(i, (k, v))),
{
    let t = kcut(k);
    lemma_kcut_mono(k);
    lemma_found(ks, es, i, t);
    lemma_scan(ks, es, i, t);
    let w = pre(ks, es, i) + kat(ks, i);
    let x = kat(ks, i + 1) + suf(ks, es, i + 1);
    lemma_below_plus(pre(ks, es, i), kat(ks, i), t);
    lemma_above_plus(kat(ks, i + 1), suf(ks, es, i + 1), t);
    lemma_mid_ins(w, seq![es[i]], x, k, v);
    lemma_one_ins(es[i], k, v);
    let e2 = es.update(i, (k, v));
    lemma_il(ks, e2, i);
    lemma_pre_suf(ks, e2, i);
    lemma_pre_eq(ks, es, ks, e2, i);
    lemma_suf_eq(ks, es, i + 1, ks, e2, i + 1);
    assert(il(ks, e2) =~= w + seq![(k, v)] + x);
}

// the scan stopped before child i
pub proof fn lemma_descend<K: Ord, V>(ks: Seq<Seq<(K, V)>>, es: Seq<(K, V)>, i: int, t: Cut<K>)
    requires
        sorted(il(ks, es)), mono(t), lawful::<K>(),
        0 <= i <= es.len(),
        0 < i ==> t(es[i - 1].0) is Greater,
        i == es.len() || t(es[i].0) is Less,
    ensures
        sorted(kat(ks, i)),
        m_get(il(ks, es), t) == m_get(kat(ks, i), t),
        m_rm(il(ks, es), t) == pre(ks, es, i) + m_rm(kat(ks, i), t) + suf(ks, es, i),
        below(pre(ks, es, i), t),
        above(suf(ks, es, i), t),
{
    lemma_scan(ks, es, i, t);
    lemma_il(ks, es, i);
    lemma_mid(pre(ks, es, i), kat(ks, i), suf(ks, es, i), t);
}

pub proof fn lemma_descend_ins<K: Ord, V>(ks: Seq<Seq<(K, V)>>, es: Seq<(K, V)>, i: int, k: K, v: V)
    requires
        sorted(il(ks, es)), lawful::<K>(),
        0 <= i <= es.len(),
        0 < i ==> kcut(k)(es[i - 1].0) is Greater,
        i == es.len() || kcut(k)(es[i].0) is Less,
    ensures
        sorted(kat(ks, i)),
        m_get(il(ks, es), kcut(k)) == m_get(kat(ks, i), kcut(k)),
        m_ins(il(ks, es), k, v) == pre(ks, es, i) + m_ins(kat(ks, i), k, v) + suf(ks, es, i),
{
    lemma_kcut_mono(k);
    lemma_descend(ks, es, i, kcut(k));
    lemma_il(ks, es, i);
    lemma_mid_ins(pre(ks, es, i), kat(ks, i), suf(ks, es, i), k, v);
}

// child i replaced by something with sequence x
pub proof fn lemma_il_upd<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int, x: Seq<E>)
    requires 0 <= i < ks.len(), ks.len() == es.len() + 1,
    ensures il(ks.update(i, x), es) == pre(ks, es, i) + x + suf(ks, es, i),
{
    let k2 = ks.update(i, x);
    lemma_il(k2, es, i);
    lemma_pre_eq(ks, es, k2, es, i);
    lemma_suf_eq(ks, es, i, k2, es, i);
}

// entry e and (in a branch) child x inserted before child i
pub proof fn lemma_il_ins<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int, x: Seq<E>, e: E)
    requires 0 <= i <= es.len(), ks.len() == es.len() + 1,
    ensures il(ks.insert(i, x), es.insert(i, e)) == pre(ks, es, i) + (x + seq![e] + kat(ks, i)) + suf(ks, es, i),
{
    let k2 = ks.insert(i, x);
    let e2 = es.insert(i, e);
    lemma_il(k2, e2, i);
    lemma_pre_suf(k2, e2, i);
    lemma_pre_eq(ks, es, k2, e2, i);
    lemma_suf_eq(ks, es, i, k2, e2, i + 1);
    assert(kat(k2, i) == x);
    assert(kat(k2, i + 1) == kat(ks, i));
    assert(il(k2, e2) =~= pre(ks, es, i) + (x + seq![e] + kat(ks, i)) + suf(ks, es, i));
}

pub proof fn lemma_leaf_pre<E>(es: Seq<E>, i: int)
    requires 0 <= i <= es.len(),
    ensures pre(Seq::<Seq<E>>::empty(), es, i) == es.take(i),
    decreases i
{
    if i > 0 {
        lemma_leaf_pre(es, i - 1);
        assert(pre(Seq::<Seq<E>>::empty(), es, i) =~= es.take(i));
    } else {
        assert(es.take(0) =~= Seq::<E>::empty());
    }
}

// children i and i+1 and the entry between them replaced
pub proof fn lemma_il_upd2<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int, a: Seq<E>, x: E, b: Seq<E>)
    requires 0 <= i < es.len(), ks.len() == es.len() + 1,
    ensures
        il(ks.update(i, a).update(i + 1, b), es.update(i, x)) == pre(ks, es, i) + (a + seq![x] + b) + suf(ks, es, i + 1),
        il(ks, es) == pre(ks, es, i) + (ks[i] + seq![es[i]] + ks[i + 1]) + suf(ks, es, i + 1),
{
    let k2 = ks.update(i, a).update(i + 1, b);
    let e2 = es.update(i, x);
    lemma_il(ks, es, i);
    lemma_il(k2, e2, i);
    lemma_pre_suf(ks, es, i);
    lemma_pre_suf(k2, e2, i);
    lemma_pre_eq(ks, es, k2, e2, i);
    lemma_suf_eq(ks, es, i + 1, k2, e2, i + 1);
    assert(kat(k2, i) == a && kat(k2, i + 1) == b);
    assert(il(k2, e2) =~= pre(ks, es, i) + (a + seq![x] + b) + suf(ks, es, i + 1));
    assert(il(ks, es) =~= pre(ks, es, i) + (ks[i] + seq![es[i]] + ks[i + 1]) + suf(ks, es, i + 1));
}

// children i and i+1 and the entry between them replaced by one child
pub proof fn lemma_il_merge<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int, a: Seq<E>)
    requires 0 <= i < es.len(), ks.len() == es.len() + 1,
    ensures
        il(ks.remove(i).update(i, a), es.remove(i)) == pre(ks, es, i) + a + suf(ks, es, i + 1),
        il(ks, es) == pre(ks, es, i) + (ks[i] + seq![es[i]] + ks[i + 1]) + suf(ks, es, i + 1),
{
    let k2 = ks.remove(i).update(i, a);
    let e2 = es.remove(i);
    lemma_il(ks, es, i);
    lemma_il(k2, e2, i);
    lemma_pre_suf(ks, es, i);
    lemma_pre_eq(ks, es, k2, e2, i);
    assert forall|j: int| i + 1 < j <= es.len() implies kat(ks, j) == #[trigger] kat(k2, j - (i + 1) + i) by { }
    assert forall|j: int| i + 1 <= j < es.len() implies es[j] == #[trigger] e2[j - (i + 1) + i] by { }
    lemma_suf_eq(ks, es, i + 1, k2, e2, i);
    assert(kat(k2, i) == a);
    assert(il(ks, es) =~= pre(ks, es, i) + (ks[i] + seq![es[i]] + ks[i + 1]) + suf(ks, es, i + 1));
}

pub proof fn lemma_end<E>(ks: Seq<Seq<E>>, es: Seq<E>)
    requires ks.len() == es.len() + 1,
    ensures
        pre(ks, es, 0) == Seq::<E>::empty(),
        suf(ks, es, es.len() as int) == Seq::<E>::empty(),
{
}

pub proof fn lemma_il_len<E>(ks: Seq<Seq<E>>, es: Seq<E>)
    ensures il(ks, es).len() >= es.len(),
{
    lemma_suf_len(ks, es, 0);
}

pub proof fn lemma_suf_len<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int)
    requires 0 <= i <= es.len(),
    ensures suf(ks, es, i).len() >= es.len() - i,
    decreases es.len() - i
{
    if i < es.len() { lemma_suf_len(ks, es, i + 1); }
}

pub proof fn lemma_give_last<E>(p: Seq<E>, c: Seq<E>, k: Seq<E>, s: Seq<E>)
    requires c.len() > 0,
    ensures p + (c.drop_last() + seq![c.last()] + k) + s == p + c + (k + s),
{
    assert(p + (c.drop_last() + seq![c.last()] + k) + s =~= p + c + (k + s));
}
