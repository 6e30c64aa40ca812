#raw
// sets: maps to Unit
spec fn refs<'a, T>(s: Seq<(T, Unit)>) -> Seq<&'a T> { s.map_values(|e: (T, Unit)| &e.0) }
proof fn lemma_has<K: Ord, V>()
    ensures
        forall|s: Seq<(K, V)>, k: K| #![trigger has_key(s, kcut(k))] #![trigger m_get(s, kcut(k))] has_key(s, kcut(k)) == (m_get(s, kcut(k)) is Some),
{}
proof fn lemma_rm_ins<K: Ord, V>(s: Seq<(K, V)>, k: K, v: V)
    requires sorted(s), lawful::<K>(),
    ensures m_ins(m_rm(s, kcut(k)), k, v) == m_ins(s, k, v), has_key(s, kcut(k)) ==> m_rm(s, kcut(k)).len() == s.len() - 1,
{
    let c = kcut(k);
    lemma_kcut_mono(k);
    lemma_idx(s, c);
    let i = idx(s, c);
    let t = m_rm(s, c);
    if has_key(s, c) {
        lemma_rm_sorted(s, c);
        lemma_kcut_sides(s, k);
        lemma_mid_after(s, k, i);
        lemma_idx_unique(t, c, i);
        assert(m_ins(t, k, v) =~= m_ins(s, k, v));
    }
}
proof fn lemma_mid_after<K: Ord, V>(s: Seq<(K, V)>, k: K, i: int)
    requires sorted(s), lawful::<K>(), i == idx(s, kcut(k)), has_key(s, kcut(k)),
    ensures
        forall|j: int| 0 <= j < i ==> kcut(k)(#[trigger] m_rm(s, kcut(k))[j].0) is Greater,
        i < m_rm(s, kcut(k)).len() ==> kcut(k)(m_rm(s, kcut(k))[i].0) is Less,
{
    let c = kcut(k);
    let t = m_rm(s, c);
    lemma_kcut_mono(k);
    lemma_idx(s, c);
    assert forall|j: int| 0 <= j < i implies c(#[trigger] t[j].0) is Greater by { assert(t[j] == s[j]); assert(c(s[j].0) is Greater); }
    if i < t.len() { assert(t[i] == s[i + 1]); }
}
// references compare as what they refer to
proof fn lemma_ref_lawful<'a, T: Ord + 'a>()
    requires lawful::<T>(),
    ensures lawful::<&'a T>(),
{
    reveal(ord_laws);
    assert forall|a: &'a T, b: &'a T| (#[trigger] <&'a T as PartialOrdSpec>::partial_cmp_spec(&a, &b)) == Some(<&'a T as OrdSpec>::cmp_spec(&a, &b)) by {
        assert((*a).partial_cmp_spec(b) == Some((*a).cmp_spec(b)));
    }
    assert forall|a: &'a T, b: &'a T| (<&'a T as OrdSpec>::cmp_spec(&a, &b) is Less) == (#[trigger] <&'a T as OrdSpec>::cmp_spec(&b, &a) is Greater) by {
        assert(((*a).cmp_spec(b) is Less) == ((*b).cmp_spec(a) is Greater));
    }
    assert forall|a: &'a T, b: &'a T, c: &'a T| #![trigger <&'a T as OrdSpec>::cmp_spec(&a, &b), <&'a T as OrdSpec>::cmp_spec(&b, &c)]
            !(<&'a T as OrdSpec>::cmp_spec(&a, &b) is Greater) && !(<&'a T as OrdSpec>::cmp_spec(&b, &c) is Greater) implies
                !(<&'a T as OrdSpec>::cmp_spec(&a, &c) is Greater)
                && ((<&'a T as OrdSpec>::cmp_spec(&a, &b) is Less || <&'a T as OrdSpec>::cmp_spec(&b, &c) is Less) ==> <&'a T as OrdSpec>::cmp_spec(&a, &c) is Less) by {
        let _ = ((*a).cmp_spec(b), (*b).cmp_spec(c), (*a).cmp_spec(c));
    }
}
proof fn lemma_refs<'a, T: Ord + 'a>(s: Seq<(T, Unit)>)
    requires sorted(s), lawful::<T>(),
    ensures
        ups(refs::<T>(s)),
        forall|k: &'a T| #[trigger] mem(refs::<T>(s), k) == has_key(s, kcut(*k)),
{
    lemma_ref_lawful::<T>();
    let r = refs::<T>(s);
    reveal(sorted); reveal(ups);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt(#[trigger] r[i], #[trigger] r[j]) by { assert(lt(s[i].0, s[j].0)); }
    assert forall|k: &'a T| #[trigger] mem(r, k) == has_key(s, kcut(*k)) by {
        let c = kcut(*k);
        lemma_kcut_mono(*k);
        lemma_idx(s, c);
        if mem(r, k) {
            let i = choose|i: int| 0 <= i < r.len() && #[trigger] eqv(r[i], k);
            assert(r[i] == &s[i].0);
            assert(s[i].0.cmp_spec(k) is Equal);
            law_flip(s[i].0, *k);
            assert(c(s[i].0) is Equal);
            lemma_get_mem(s, c);
            assert(has_key(s, c));
        }
        if has_key(s, c) {
            let i = idx(s, c);
            law_flip(s[i].0, *k);
            assert(r[i] == &s[i].0);
            assert(eqv(r[i], k));
        }
    }
}
// every key of a is a key of b
spec fn within<K: Ord, V>(a: Seq<(K, V)>, b: Seq<(K, V)>) -> bool {
    forall|k: K| has_key(a, kcut(k)) ==> #[trigger] has_key(b, kcut(k))
}
proof fn lemma_has_at<K: Ord, V>(s: Seq<(K, V)>, x: K)
    requires lawful::<K>(), sorted(s),
    ensures has_key(s, kcut(x)) == (exists|i: int| 0 <= i < s.len() && eqv(#[trigger] s[i].0, x)),
{
    let c = kcut(x);
    lemma_kcut_mono(x);
    lemma_idx(s, c);
    if has_key(s, c) { let i = idx(s, c); law_flip(s[i].0, x); assert(eqv(s[i].0, x)); }
    if exists|i: int| 0 <= i < s.len() && eqv(#[trigger] s[i].0, x) {
        let i = choose|i: int| 0 <= i < s.len() && eqv(#[trigger] s[i].0, x);
        law_flip(s[i].0, x);
        assert(c(s[i].0) is Equal);
        lemma_get_mem(s, c);
    }
}
// a subset has at most as many elements
proof fn lemma_within_len<K: Ord, V>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires lawful::<K>(), sorted(a), sorted(b), forall|i: int| 0 <= i < a.len() ==> has_key(b, kcut((#[trigger] a[i]).0)),
    ensures a.len() <= b.len(),
    decreases a.len()
{
    reveal(sorted);
    if a.len() > 0 {
        let (d, e) = (a.drop_last(), a.last());
        assert(has_key(b, kcut(a[a.len() - 1].0)));
        lemma_has_at(b, e.0);
        let j = choose|j: int| 0 <= j < b.len() && eqv(#[trigger] b[j].0, e.0);
        let c = b.take(j);
        assert forall|x: int, y: int| 0 <= x < y < c.len() implies lt(#[trigger] c[x].0, #[trigger] c[y].0) by { assert(lt(b[x].0, b[y].0)); }
        assert forall|x: int, y: int| 0 <= x < y < d.len() implies lt(#[trigger] d[x].0, #[trigger] d[y].0) by { assert(lt(a[x].0, a[y].0)); }
        assert forall|i: int| 0 <= i < d.len() implies has_key(c, kcut((#[trigger] d[i]).0)) by {
            assert(has_key(b, kcut(a[i].0)));
            lemma_has_at(b, a[i].0); lemma_has_at(c, a[i].0);
            let m = choose|m: int| 0 <= m < b.len() && eqv(#[trigger] b[m].0, a[i].0);
            assert(lt(a[i].0, e.0));
            law_trans(b[m].0, a[i].0, e.0); law_flip(b[m].0, a[i].0); law_flip(b[j].0, e.0);
            if m >= j {
                if m > j { assert(lt(b[j].0, b[m].0)); law_flip(b[j].0, b[m].0); law_trans(b[j].0, b[m].0, e.0); }
                law_flip(b[m].0, e.0);
                assert(false);
            }
            assert(c[m] == b[m]);
        }
        lemma_within_len(d, c);
    }
}
proof fn lemma_within_each<K: Ord, V>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires lawful::<K>(), sorted(a), sorted(b), within(a, b),
    ensures forall|i: int| 0 <= i < a.len() ==> has_key(b, kcut((#[trigger] a[i]).0)),
{
    assert forall|i: int| 0 <= i < a.len() implies has_key(b, kcut((#[trigger] a[i]).0)) by {
        lemma_has_at(a, a[i].0);
        law_flip(a[i].0, a[i].0);
        assert(eqv(a[i].0, a[i].0));
        assert(has_key(a, kcut(a[i].0)));
    }
}
proof fn law_eq<K: Ord>(a: K, b: K, c: K)
    requires lawful::<K>(), eqv(a, b), eqv(b, c),
    ensures eqv(a, c),
{
    law_flip(a, b); law_flip(b, c); law_flip(a, c);
    law_trans(a, b, c); law_trans(c, b, a);
}
// elements as entries
spec fn units<T>(s: Seq<T>) -> Seq<(T, Unit)> { s.map_values(|k: T| (k, Unit)) }
spec fn copied<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|k: &T| *k) }
// --- what is found under a key after each kind of change --------------------
proof fn lemma_get_at<K: Ord, V>(s: Seq<(K, V)>, x: K)
    requires lawful::<K>(), sorted(s),
    ensures
        m_get(s, kcut(x)) is Some ==> (exists|i: int| 0 <= i < s.len() && eqv(#[trigger] s[i].0, x) && m_get(s, kcut(x)) == Some(s[i])),
        forall|i: int| 0 <= i < s.len() && eqv(#[trigger] s[i].0, x) ==> m_get(s, kcut(x)) == Some(s[i]),
{
    let c = kcut(x);
    lemma_kcut_mono(x);
    lemma_idx(s, c);
    if m_get(s, c) is Some { let i = idx(s, c); law_flip(s[i].0, x); assert(eqv(s[i].0, x)); }
    assert forall|i: int| 0 <= i < s.len() && eqv(#[trigger] s[i].0, x) implies m_get(s, c) == Some(s[i]) by {
        law_flip(s[i].0, x);
        assert(c(s[i].0) is Equal);
        assert forall|j: int| 0 <= j < i implies c(#[trigger] s[j].0) is Greater by {
            reveal(sorted);
            assert(lt(s[j].0, s[i].0));
            law_flip(s[j].0, s[i].0); law_trans(s[j].0, s[i].0, x); law_flip(s[j].0, x);
        }
        lemma_idx_unique(s, c, i);
    }
}
// t is s with e put in at i, in place of r entries (0 or 1) that compare equal
proof fn lemma_get_put<K: Ord, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, e: (K, V), x: K)
    requires
        lawful::<K>(), sorted(s), sorted(t),
        exists|i: int| 0 <= i < t.len() && #[trigger] t[i] == e,
        forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == e || (exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == t[i]),
        forall|i: int| 0 <= i < s.len() ==> eqv((#[trigger] s[i]).0, e.0) || (exists|j: int| 0 <= j < t.len() && #[trigger] t[j] == s[i]),
    ensures m_get(t, kcut(x)) == (if eqv(e.0, x) { Some(e) } else { m_get(s, kcut(x)) }),
{
    lemma_get_at(s, x); lemma_get_at(t, x);
    let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == e;
    if eqv(e.0, x) {
        assert(eqv(t[i].0, x));
    } else {
        if m_get(s, kcut(x)) is Some {
            let j = choose|j: int| 0 <= j < s.len() && eqv(#[trigger] s[j].0, x) && m_get(s, kcut(x)) == Some(s[j]);
            if eqv(s[j].0, e.0) { law_flip(s[j].0, e.0); law_eq(e.0, s[j].0, x); }
            let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == s[j];
            assert(eqv(t[k].0, x));
        }
        if m_get(t, kcut(x)) is Some {
            let j = choose|j: int| 0 <= j < t.len() && eqv(#[trigger] t[j].0, x) && m_get(t, kcut(x)) == Some(t[j]);
            let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == t[j];
            assert(eqv(s[k].0, x));
        }
    }
}
proof fn lemma_get_ins<K: Ord, V>(s: Seq<(K, V)>, k: K, v: V)
    requires lawful::<K>(), sorted(s),
    ensures
        sorted(m_ins(s, k, v)),
        forall|x: K| #[trigger] m_get(m_ins(s, k, v), kcut(x)) == (if eqv(k, x) { Some((k, v)) } else { m_get(s, kcut(x)) }),
{
    let c = kcut(k);
    let t = m_ins(s, k, v);
    lemma_kcut_mono(k);
    lemma_idx(s, c);
    lemma_ins_sorted(s, k, v);
    let n = idx(s, c);
    let h = has_key(s, c);
    if h { law_flip(s[n].0, k); }
    assert(t[n] == (k, v));
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == (k, v) || (exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == t[i]) by {
        if i < n { assert(s[i] == t[i]); }
        if i > n { if h { assert(s[i] == t[i]); } else { assert(s[i - 1] == t[i]); } }
    }
    assert forall|i: int| 0 <= i < s.len() implies eqv((#[trigger] s[i]).0, k) || (exists|j: int| 0 <= j < t.len() && #[trigger] t[j] == s[i]) by {
        if i < n { assert(t[i] == s[i]); }
        if i > n { if h { assert(t[i] == s[i]); } else { assert(t[i + 1] == s[i]); } }
        if i == n && !h { assert(t[i + 1] == s[i]); }
    }
    assert forall|x: K| #[trigger] m_get(t, kcut(x)) == (if eqv(k, x) { Some((k, v)) } else { m_get(s, kcut(x)) }) by {
        lemma_get_put(s, t, (k, v), x);
    }
}
proof fn lemma_get_rm<K: Ord, V>(s: Seq<(K, V)>, k: K)
    requires lawful::<K>(), sorted(s),
    ensures
        sorted(m_rm(s, kcut(k))),
        forall|x: K| #[trigger] m_get(m_rm(s, kcut(k)), kcut(x)) == (if eqv(k, x) { None } else { m_get(s, kcut(x)) }),
{
    let c = kcut(k);
    let t = m_rm(s, c);
    lemma_kcut_mono(k);
    lemma_idx(s, c);
    lemma_rm_sorted(s, c);
    let n = idx(s, c);
    if has_key(s, c) {
        law_flip(s[n].0, k);
        assert forall|x: K| #[trigger] m_get(t, kcut(x)) == (if eqv(k, x) { None } else { m_get(s, kcut(x)) }) by {
            lemma_get_at(s, x); lemma_get_at(t, x);
            if m_get(t, kcut(x)) is Some {
                let j = choose|j: int| 0 <= j < t.len() && eqv(#[trigger] t[j].0, x) && m_get(t, kcut(x)) == Some(t[j]);
                let i = if j < n { j } else { j + 1 };
                assert(s[i] == t[j]);
                assert(eqv(s[i].0, x));
                if eqv(k, x) { law_eq(s[n].0, k, x); assert(eqv(s[n].0, x)); reveal(sorted); if i < n { assert(lt(s[i].0, s[n].0)); } else { assert(lt(s[n].0, s[i].0)); } law_flip(s[i].0, x); law_eq(s[n].0, x, s[i].0); law_flip(s[n].0, s[i].0); }
            }
            if m_get(s, kcut(x)) is Some && !eqv(k, x) {
                let j = choose|j: int| 0 <= j < s.len() && eqv(#[trigger] s[j].0, x) && m_get(s, kcut(x)) == Some(s[j]);
                if j == n { law_flip(s[n].0, k); law_eq(k, s[n].0, x); }
                let i = if j < n { j } else { j - 1 };
                assert(t[i] == s[j]);
                assert(eqv(t[i].0, x));
            }
        }
    } else {
        assert forall|x: K| #[trigger] m_get(t, kcut(x)) == (if eqv(k, x) { None } else { m_get(s, kcut(x)) }) by {
            lemma_get_at(s, x); lemma_get_at(s, k);
            if m_get(s, kcut(x)) is Some && eqv(k, x) {
                let j = choose|j: int| 0 <= j < s.len() && eqv(#[trigger] s[j].0, x) && m_get(s, kcut(x)) == Some(s[j]);
                law_flip(k, x);
                law_eq(s[j].0, x, k);
                assert(eqv(s[j].0, k));
            }
        }
    }
}
// the first n + 1 entries
proof fn lemma_get_take<K: Ord, V>(s: Seq<(K, V)>, n: int)
    requires lawful::<K>(), sorted(s), 0 <= n < s.len(),
    ensures
        sorted(s.take(n)), sorted(s.take(n + 1)),
        forall|x: K| eqv(s[n].0, x) ==> #[trigger] m_get(s.take(n), kcut(x)) is None,
        forall|x: K| #[trigger] m_get(s.take(n + 1), kcut(x)) == (if eqv(s[n].0, x) { Some(s[n]) } else { m_get(s.take(n), kcut(x)) }),
{
    let (a, b) = (s.take(n), s.take(n + 1));
    reveal(sorted);
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies lt(#[trigger] a[i].0, #[trigger] a[j].0) by { assert(lt(s[i].0, s[j].0)); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies lt(#[trigger] b[i].0, #[trigger] b[j].0) by { assert(lt(s[i].0, s[j].0)); }
    assert forall|x: K| #[trigger] m_get(b, kcut(x)) == (if eqv(s[n].0, x) { Some(s[n]) } else { m_get(a, kcut(x)) }) by {
        assert(b[n] == s[n]);
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == s[n] || (exists|j: int| 0 <= j < a.len() && #[trigger] a[j] == b[i]) by { if i < n { assert(a[i] == b[i]); } }
        assert forall|i: int| 0 <= i < a.len() implies eqv((#[trigger] a[i]).0, s[n].0) || (exists|j: int| 0 <= j < b.len() && #[trigger] b[j] == a[i]) by { assert(b[i] == a[i]); }
        lemma_get_put(a, b, s[n], x);
    }
    assert forall|x: K| eqv(s[n].0, x) implies #[trigger] m_get(a, kcut(x)) is None by {
        lemma_get_at(a, x);
        if m_get(a, kcut(x)) is Some {
            let i = choose|i: int| 0 <= i < a.len() && eqv(#[trigger] a[i].0, x) && m_get(a, kcut(x)) == Some(a[i]);
            assert(lt(s[i].0, s[n].0));
            law_flip(s[n].0, x); law_eq(a[i].0, x, s[n].0); law_flip(s[i].0, s[n].0);
        }
    }
}
// equal keys find the same
proof fn lemma_get_same<K: Ord, V>(s: Seq<(K, V)>)
    requires lawful::<K>(), sorted(s),
    ensures forall|x: K, y: K| #![trigger m_get(s, kcut(x)), m_get(s, kcut(y))] eqv(x, y) ==> m_get(s, kcut(x)) == m_get(s, kcut(y)),
{
    assert forall|x: K, y: K| #![trigger m_get(s, kcut(x)), m_get(s, kcut(y))] eqv(x, y) implies m_get(s, kcut(x)) == m_get(s, kcut(y)) by {
        lemma_get_at(s, x); lemma_get_at(s, y);
        law_flip(x, y);
        if m_get(s, kcut(x)) is Some {
            let i = choose|i: int| 0 <= i < s.len() && eqv(#[trigger] s[i].0, x) && m_get(s, kcut(x)) == Some(s[i]);
            law_eq(s[i].0, x, y);
            assert(eqv(s[i].0, y));
        }
        if m_get(s, kcut(y)) is Some {
            let i = choose|i: int| 0 <= i < s.len() && eqv(#[trigger] s[i].0, y) && m_get(s, kcut(y)) == Some(s[i]);
            law_eq(s[i].0, y, x);
            assert(eqv(s[i].0, x));
        }
    }
}
// inserting sorted entries one after the other: theirs win
proof fn lemma_get_ext<K: Ord, V>(s: Seq<(K, V)>, es: Seq<(K, V)>)
    requires lawful::<K>(), sorted(s), sorted(es),
    ensures
        sorted(m_ext(s, es)),
        forall|x: K| #[trigger] m_get(m_ext(s, es), kcut(x)) == s_or(m_get(s, kcut(x)), m_get(es, kcut(x))),
    decreases es.len()
{
    lemma_ext(s, es);
    if es.len() == 0 {
        assert forall|x: K| m_get(es, kcut(x)) is None by { lemma_get_at(es, x); }
    } else {
        let n = es.len() - 1;
        assert(es.take(n) =~= es.drop_last());
        assert(es.take(n + 1) =~= es);
        lemma_get_take(es, n);
        lemma_get_ext(s, es.drop_last());
        lemma_get_ins(m_ext(s, es.drop_last()), es[n].0, es[n].1);
        assert forall|x: K| #[trigger] m_get(m_ext(s, es), kcut(x)) == s_or(m_get(s, kcut(x)), m_get(es, kcut(x))) by {
            assert(m_get(es, kcut(x)) == m_get(es.take(n + 1), kcut(x)));
        }
    }
}
// picking by a test of the key
proof fn lemma_get_picks<K: Ord, V>(s: Seq<(K, V)>, o: Seq<bool>, p: spec_fn(K) -> bool)
    requires lawful::<K>(), sorted(s), o.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> o[i] == p(#[trigger] s[i].0),
        forall|x: K, y: K| eqv(x, y) && #[trigger] p(x) ==> #[trigger] p(y),
    ensures
        sorted(picks(s, o, true)),
        forall|x: K| #[trigger] m_get(picks(s, o, true), kcut(x)) == (if p(x) { m_get(s, kcut(x)) } else { None }),
    decreases s.len()
{
    let e = Seq::<(K, V)>::empty();
    lemma_picks_any(s, o);
    if s.len() == 0 {
        assert forall|x: K| #[trigger] m_get(picks(s, o, true), kcut(x)) is None by { lemma_get_at(picks(s, o, true), x); }
        assert forall|x: K| #[trigger] m_get(s, kcut(x)) is None by { lemma_get_at(s, x); }
    } else {
        let n = s.len() - 1;
        assert(s.take(n) =~= s.drop_last());
        assert(s.take(n + 1) =~= s);
        lemma_get_take(s, n);
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies o.drop_last()[i] == p(#[trigger] d[i].0) by { assert(s[i] == d[i]); }
        lemma_get_picks(d, o.drop_last(), p);
        lemma_picks_eq(d, o, o.drop_last(), true);
        let a = picks(d, o, true);
        let b = picks(s, o, true);
        let l = s[n];
        assert forall|x: K| #[trigger] m_get(b, kcut(x)) == (if p(x) { m_get(s, kcut(x)) } else { None }) by {
            assert(m_get(s, kcut(x)) == m_get(s.take(n + 1), kcut(x)));
            if p(l.0) {
                assert(b == a.push(l));
                assert(b[a.len() as int] == l);
                assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == l || (exists|j: int| 0 <= j < a.len() && #[trigger] a[j] == b[i]) by { if i < a.len() { assert(a[i] == b[i]); } }
                assert forall|i: int| 0 <= i < a.len() implies eqv((#[trigger] a[i]).0, l.0) || (exists|j: int| 0 <= j < b.len() && #[trigger] b[j] == a[i]) by { assert(b[i] == a[i]); }
                lemma_get_put(a, b, l, x);
                if eqv(l.0, x) { assert(p(x)); }
            } else {
                assert(b == a);
                if eqv(l.0, x) { law_flip(l.0, x); assert(p(x) ==> p(l.0)); }
            }
        }
    }
}
// what is picked from a sorted sequence is sorted
proof fn lemma_picks_any<K: Ord, V>(s: Seq<(K, V)>, o: Seq<bool>)
    requires sorted(s), o.len() == s.len(),
    ensures sorted(picks(s, o, true)), picks(s, o, true).len() <= s.len(),
{
    let e = Seq::<(K, V)>::empty();
    assert(e + s + e =~= s);
    lemma_picks_sorted(e, s, o, e);
    assert(e + picks(s, o, true) + e =~= picks(s, o, true));
}
// what is kept is no longer, and as sorted
proof fn lemma_picks_sorted<K: Ord, V>(a: Seq<(K, V)>, s: Seq<(K, V)>, o: Seq<bool>, t: Seq<(K, V)>)
    requires sorted(a + s + t),
    ensures sorted(a + picks(s, o, true) + t), picks(s, o, true).len() <= s.len(),
    decreases s.len()
{
    if s.len() > 0 {
        let (d, e) = (s.drop_last(), s.last());
        assert(a + s + t =~= a + d + (seq![e] + t));
        lemma_picks_sorted(a, d, o, seq![e] + t);
        let p = picks(d, o, true);
        let w = a + p + (seq![e] + t);
        if o[s.len() - 1] {
            assert(a + p.push(e) + t =~= w);
        } else {
            let n = (a + p).len() as int;
            let v = a + p + t;
            reveal(sorted);
            assert forall|i: int, j: int| 0 <= i < j < v.len() implies lt(#[trigger] v[i].0, #[trigger] v[j].0) by {
                let x = if i < n { i } else { i + 1 };
                let y = if j < n { j } else { j + 1 };
                assert(v[i] == w[x] && v[j] == w[y]);
                assert(lt(w[x].0, w[y].0));
            }
        }
    } else {
        assert(a + s + t =~= a + picks(s, o, true) + t);
    }
}
// the answers f gave for the elements of s, one each, in order; those kept
spec fn kept_by<T, F: FnMut(&T) -> bool>(f: F, s: Seq<(T, Unit)>, r: Seq<(T, Unit)>) -> bool {
    exists|o: Seq<bool>| #[trigger] answers(f, s, o) && r == picks(s, o, true)
}
spec fn answers<T, F: FnMut(&T) -> bool>(f: F, s: Seq<(T, Unit)>, o: Seq<bool>) -> bool {
    o.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((&(#[trigger] s[i]).0,), o[i])
}
proof fn lemma_get_empty<K: Ord, V>(s: Seq<(K, V)>)
    ensures s.len() == 0 ==> forall|x: K| #[trigger] m_get(s, kcut(x)) is None,
{
    assert forall|x: K| s.len() == 0 implies #[trigger] m_get(s, kcut(x)) is None by { lemma_idx_empty(s, kcut(x)); }
}
