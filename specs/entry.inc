#source src/lib.rs
#subst \.clone\(\) => .vclone()
#raw
#prop C12
#item struct Entry
#raw
spec fn ekey<M: Map>(k: M::Key) -> Cut<M::Key> { kcut(k) }
#fn Entry::key -> r
    ensures *r == self.key,
#fn Entry::and_modify -> r
    requires self.map.good(), lawful::<M::Key>(),
        has_key(self.map.ents(), kcut(self.key)) ==>
            forall|v: &mut M::Value| *v == (m_get(self.map.ents(), kcut(self.key))->0).1 ==> f.requires((v,)),
    ensures
        r.key == self.key, r.map.good(), *final(r.map) == *final(self.map),
        !has_key(old(self.map).ents(), kcut(self.key)) ==> r.map.ents() == old(self.map).ents(),
        has_key(old(self.map).ents(), kcut(self.key)) ==> exists|v: &mut M::Value|
            *v == (m_get(old(self.map).ents(), kcut(self.key))->0).1 && #[trigger] f.ensures((v,), ())
            && r.map.ents() == m_upd(old(self.map).ents(), kcut(self.key), *final(v)),
@begin
    proof { lemma_lawful_refl::<M::Key>(); }
#raw
// the value under k becomes v; the map held it or gained it
spec fn put<K: Ord, V>(s: Seq<(K, V)>, k: K, v: V) -> Seq<(K, V)> {
    if has_key(s, kcut(k)) { m_upd(s, kcut(k), v) } else { m_ins(s, k, v) }
}
proof fn lemma_put<K: Ord, V>(s: Seq<(K, V)>, k: K)
    requires sorted(s), lawful::<K>(),
    ensures
        !has_key(s, kcut(k)) ==> forall|v: V| has_key(#[trigger] m_ins(s, k, v), kcut(k)) && (m_get(m_ins(s, k, v), kcut(k))->0).1 == v
            && forall|w: V| #[trigger] m_upd(m_ins(s, k, v), kcut(k), w) == m_ins(s, k, w),
{
    if !has_key(s, kcut(k)) {
        assert forall|v: V| has_key(#[trigger] m_ins(s, k, v), kcut(k)) && (m_get(m_ins(s, k, v), kcut(k))->0).1 == v
            && forall|w: V| #[trigger] m_upd(m_ins(s, k, v), kcut(k), w) == m_ins(s, k, w) by {
            let t = m_ins(s, k, v);
            let i = idx(s, kcut(k));
            lemma_kcut_mono(k);
            lemma_idx(s, kcut(k));
            lemma_ins_sorted(s, k, v);
            lemma_get_own(t, i);
            assert(t[i] == (k, v));
            law_flip(k, k);
            assert forall|j: int| 0 <= j < i implies kcut(k)(#[trigger] t[j].0) is Greater by { assert(t[j] == s[j]); }
            lemma_idx_unique(t, kcut(k), i);
            assert forall|w: V| #[trigger] m_upd(t, kcut(k), w) == m_ins(s, k, w) by {
                assert(t.update(i, (k, w)) =~= s.insert(i, (k, w)));
            }
        }
    }
}
#fn Entry::or_aux -> r
    requires self.map.good(), lawful::<M::Key>(), self.map.ents().len() < usize::MAX,
        !has_key(self.map.ents(), kcut(self.key)) ==> f.requires(()),
    ensures
        has_key(old(self.map).ents(), kcut(self.key)) ==> *r == (m_get(old(self.map).ents(), kcut(self.key))->0).1,
        !has_key(old(self.map).ents(), kcut(self.key)) ==> f.ensures((), *r),
        final(self.map).ents() == put(old(self.map).ents(), self.key, *final(r)), final(self.map).good(),
@begin
    proof { lemma_lawful_refl::<M::Key>(); self.map.lemma_good(); lemma_put::<M::Key, M::Value>(self.map.ents(), self.key); }
#fn Entry::or_default -> r
    requires self.map.good(), lawful::<M::Key>(), self.map.ents().len() < usize::MAX,
    ensures
        has_key(old(self.map).ents(), kcut(self.key)) ==> *r == (m_get(old(self.map).ents(), kcut(self.key))->0).1,
        !has_key(old(self.map).ents(), kcut(self.key)) ==> M::Value::default.ensures((), *r),
        final(self.map).ents() == put(old(self.map).ents(), self.key, *final(r)), final(self.map).good(),
#fn Entry::or_insert -> r
    requires self.map.good(), lawful::<M::Key>(), self.map.ents().len() < usize::MAX,
    ensures
        has_key(old(self.map).ents(), kcut(self.key)) ==> *r == (m_get(old(self.map).ents(), kcut(self.key))->0).1,
        !has_key(old(self.map).ents(), kcut(self.key)) ==> *r == default,
        final(self.map).ents() == put(old(self.map).ents(), self.key, *final(r)), final(self.map).good(),
@closure 0 () -> (v: M::Value)
    ensures v == default,
#fn Entry::or_insert_with -> r
    requires self.map.good(), lawful::<M::Key>(), self.map.ents().len() < usize::MAX,
        !has_key(self.map.ents(), kcut(self.key)) ==> default.requires(()),
    ensures
        has_key(old(self.map).ents(), kcut(self.key)) ==> *r == (m_get(old(self.map).ents(), kcut(self.key))->0).1,
        !has_key(old(self.map).ents(), kcut(self.key)) ==> default.ensures((), *r),
        final(self.map).ents() == put(old(self.map).ents(), self.key, *final(r)), final(self.map).good(),
#fn Entry::or_insert_with_key -> r
    requires self.map.good(), lawful::<M::Key>(), self.map.ents().len() < usize::MAX,
        !has_key(self.map.ents(), kcut(self.key)) ==> forall|k: &M::Key| *k == self.key ==> default.requires((k,)),
    ensures
        has_key(old(self.map).ents(), kcut(self.key)) ==> *r == (m_get(old(self.map).ents(), kcut(self.key))->0).1,
        !has_key(old(self.map).ents(), kcut(self.key)) ==> default.ensures((&self.key,), *r),
        final(self.map).ents() == put(old(self.map).ents(), self.key, *final(r)), final(self.map).good(),
@begin
    proof { lemma_lawful_refl::<M::Key>(); self.map.lemma_good(); lemma_put::<M::Key, M::Value>(self.map.ents(), self.key); }
