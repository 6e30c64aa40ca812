#include yields.inc
#raw
// entries inserted one after the other
pub open spec fn m_ext<K: Ord, V>(s: Seq<(K, V)>, es: Seq<(K, V)>) -> Seq<(K, V)>
    decreases es.len()
{
    if es.len() == 0 { s } else { m_ins(m_ext(s, es.drop_last()), es.last().0, es.last().1) }
}

pub proof fn lemma_ext<K: Ord, V>(s: Seq<(K, V)>, es: Seq<(K, V)>)
    requires sorted(s), lawful::<K>(),
    ensures sorted(m_ext(s, es)), s.len() <= m_ext(s, es).len() <= s.len() + es.len(),
    decreases es.len()
{
    if es.len() > 0 {
        lemma_ext(s, es.drop_last());
        lemma_ins_sorted(m_ext(s, es.drop_last()), es.last().0, es.last().1);
    }
}

pub proof fn lemma_ext_step<K: Ord, V>(s: Seq<(K, V)>, es: Seq<(K, V)>, i: int)
    requires 0 <= i < es.len(),
    ensures m_ext(s, es.take(i + 1)) == m_ins(m_ext(s, es.take(i)), es[i].0, es[i].1),
{
    assert(es.take(i + 1).drop_last() =~= es.take(i));
}

// inserting sorted entries that all lie above s appends them
pub proof fn lemma_ext_sorted<K: Ord, V>(s: Seq<(K, V)>, es: Seq<(K, V)>)
    requires sorted(s + es), lawful::<K>(),
    ensures m_ext(s, es) == s + es,
    decreases es.len()
{
    if es.len() == 0 {
        assert(s + es =~= s);
    } else {
        let (d, e) = (es.drop_last(), es.last());
        assert(s + es =~= (s + d).push(e));
        reveal(sorted);
        assert forall|i: int, j: int| 0 <= i < j < (s + d).len() implies lt(#[trigger] (s + d)[i].0, #[trigger] (s + d)[j].0) by {
            assert((s + es)[i] == (s + d)[i] && (s + es)[j] == (s + d)[j]);
            assert(lt((s + es)[i].0, (s + es)[j].0));
        }
        lemma_ext_sorted(s, d);
        let c = kcut(e.0);
        assert forall|i: int| 0 <= i < (s + d).len() implies c(#[trigger] (s + d)[i].0) is Greater by {
            assert((s + es)[i] == (s + d)[i] && (s + es)[(s + d).len() as int] == e);
            assert(lt((s + es)[i].0, e.0));
            law_flip((s + d)[i].0, e.0);
        }
        lemma_idx_unique(s + d, c, (s + d).len() as int);
        assert(m_ins(s + d, e.0, e.1) =~= (s + d).push(e));
    }
}

// the entries whose answer is b
pub open spec fn picks<E>(s: Seq<E>, o: Seq<bool>, b: bool) -> Seq<E>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let r = picks(s.drop_last(), o, b);
        if o[s.len() - 1] == b { r.push(s.last()) } else { r }
    }
}

pub proof fn lemma_picks_len<E>(s: Seq<E>, o: Seq<bool>, b: bool)
    ensures picks(s, o, b).len() <= s.len(),
    decreases s.len()
{
    if s.len() > 0 { lemma_picks_len(s.drop_last(), o, b); }
}

pub proof fn lemma_picks_eq<E>(s: Seq<E>, o: Seq<bool>, p: Seq<bool>, b: bool)
    requires forall|i: int| 0 <= i < s.len() ==> o[i] == #[trigger] p[i],
    ensures picks(s, o, b) == picks(s, p, b),
    decreases s.len()
{
    if s.len() > 0 { lemma_picks_eq(s.drop_last(), o, p, b); let x = p[s.len() - 1]; }
}

// a sorted sequence, cut in two
pub proof fn lemma_cut_parts<K: Ord, V>(s: Seq<(K, V)>, t: Cut<K>)
    requires sorted(s), mono(t), lawful::<K>(),
    ensures
        0 <= idx(s, t) <= s.len(),
        sorted(s.take(idx(s, t))), sorted(s.skip(idx(s, t))),
        s == s.take(idx(s, t)) + s.skip(idx(s, t)),
        below(s.take(idx(s, t)), t),
        s.skip(idx(s, t)).len() > 0 ==> !(t(s.skip(idx(s, t))[0].0) is Greater),
        forall|i: int| 0 <= i < s.len() ==> (t((#[trigger] s[i]).0) is Greater) == (i < idx(s, t)),
{
    lemma_idx(s, t);
    let n = idx(s, t);
    assert(s =~= s.take(n) + s.skip(n));
    lemma_sorted_plus(s.take(n), s.skip(n));
    reveal(below);
    assert forall|i: int| 0 <= i < s.len() implies (t((#[trigger] s[i]).0) is Greater) == (i < n) by {
        if i > n { assert(t(s[i].0) is Less); }
    }
}

// answers true up to n, false from there
pub proof fn lemma_picks_cut<E>(s: Seq<E>, o: Seq<bool>, n: int)
    requires 0 <= n, s.len() <= o.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] o[i] == (i < n),
    ensures
        picks(s, o, true) == s.take(if n < s.len() { n } else { s.len() as int }),
        picks(s, o, false) == s.skip(if n < s.len() { n } else { s.len() as int }),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_picks_cut(d, o, n);
        let m = s.len() - 1;
        assert(o[m] == (m < n));
        if m < n {
            assert(d.take(m).push(s.last()) =~= s.take(m + 1));
            assert(d.skip(m) =~= Seq::<E>::empty());
            assert(s.skip(s.len() as int) =~= Seq::<E>::empty());
        } else {
            assert(d.take(n) =~= s.take(n));
            assert(d.skip(n).push(s.last()) =~= s.skip(n));
        }
    } else {
        assert(s.take(0) =~= Seq::<E>::empty());
        assert(s.skip(0) =~= Seq::<E>::empty());
    }
}

// the present ones
pub open spec fn somes<E>(o: Seq<Option<E>>) -> Seq<E>
    decreases o.len()
{
    if o.len() == 0 { Seq::empty() }
    else {
        let r = somes(o.drop_last());
        match o.last() { Some(e) => r.push(e), None => r }
    }
}

pub proof fn lemma_somes_len<E>(o: Seq<Option<E>>)
    ensures somes(o).len() <= o.len(),
    decreases o.len()
{
    if o.len() > 0 { lemma_somes_len(o.drop_last()); }
}

// entries kept, with their keys, from a sorted sequence are sorted
pub proof fn lemma_somes_sorted<K: Ord, V>(s: Seq<(K, V)>, o: Seq<Option<(K, V)>>)
    requires
        sorted(s), o.len() == s.len(),
        forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some ==> (o[i]->0).0 == s[i].0,
    ensures
        sorted(somes(o)),
        forall|j: int| 0 <= j < somes(o).len() ==> exists|i: int| 0 <= i < s.len() && (#[trigger] somes(o)[j]).0 == (#[trigger] s[i]).0,
    decreases o.len()
{
    reveal(sorted);
    if o.len() > 0 {
        let (d, t) = (o.drop_last(), s.drop_last());
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies lt(#[trigger] t[i].0, #[trigger] t[j].0) by {
            assert(lt(s[i].0, s[j].0));
        }
        lemma_somes_sorted(t, d);
        let r = somes(d);
        let q = somes(o);
        let m = s.len() - 1;
        assert forall|j: int| 0 <= j < r.len() implies exists|i: int| 0 <= i < m && (#[trigger] r[j]).0 == (#[trigger] s[i]).0 by {
            let i = choose|i: int| 0 <= i < t.len() && r[j].0 == (#[trigger] t[i]).0;
            assert(t[i] == s[i]);
        }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies lt(#[trigger] q[i].0, #[trigger] q[j].0) by {
            if j < r.len() {
                assert(q[i] == r[i] && q[j] == r[j]);
            } else {
                assert(q[j] == o.last()->0 && q[j].0 == s[m].0);
                assert(q[i] == r[i]);
                let x = choose|x: int| 0 <= x < m && r[i].0 == (#[trigger] s[x]).0;
                assert(lt(s[x].0, s[m].0));
            }
        }
        assert forall|j: int| 0 <= j < q.len() implies exists|i: int| 0 <= i < s.len() && (#[trigger] q[j]).0 == (#[trigger] s[i]).0 by {
            if j < r.len() {
                assert(q[j] == r[j]);
                let i = choose|i: int| 0 <= i < m && r[j].0 == (#[trigger] s[i]).0;
                assert(q[j].0 == s[i].0);
            } else { assert(q[j].0 == s[m].0); }
        }
        assert(q == somes(o));
    } else {
        assert(somes(o).len() == 0);
    }
}

// the iterator adaptors used, on the vector of what the iterator yields
pub trait VAdapt<E>: Sized {
    spec fn vseq(self) -> Seq<E>;
    fn vfilter_map<U, F: FnMut(E) -> Option<U>>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vseq().len() ==> f.requires((#[trigger] self.vseq()[i],)),
        ensures exists|o: Seq<Option<U>>| is_filter_map(f, self.vseq(), o, r@);
}
#[verifier::prophetic]
pub open spec fn is_filter_map<E, U, F: FnMut(E) -> Option<U>>(f: F, s: Seq<E>, o: Seq<Option<U>>, r: Seq<U>) -> bool {
    &&& o.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> f.ensures((#[trigger] s[i],), #[trigger] o[i])
    &&& r == somes(o)
}
impl<E> VAdapt<E> for Vec<E> {
    open spec fn vseq(self) -> Seq<E> { self@ }
    fn vfilter_map<U, F: FnMut(E) -> Option<U>>(self, f: F) -> (r: Vec<U>) {
        let mut f = f;
        let ghost f0 = f;
        let mut r: Vec<U> = Vec::new();
        let ghost mut o: Seq<Option<U>> = Seq::empty();
        let ghost s = self.vseq();
        for x in it: self
            invariant
                it.seq() == s, o.len() == it.index@, f == f0,
                forall|i: int| 0 <= i < s.len() ==> f0.requires((#[trigger] s[i],)),
                forall|i: int| 0 <= i < it.index@ ==> f0.ensures((#[trigger] s[i],), #[trigger] o[i]),
                r@ == somes(o),
        {
            let ghost o0 = o;
            let y = f(x);
            proof {
                o = o.push(y);
                assert(o.drop_last() =~= o0);
            }
            if let Some(u) = y { r.push(u); }
        }
        proof { assert(is_filter_map(f0, s, o, r@)); }
        r
    }
}

proof fn lemma_one_more<K: Ord, V>(s: Seq<(K, V)>, k: K, v: V)
    requires lawful::<K>(),
    ensures
        m_ext(Seq::<(K, V)>::empty(), s.push((k, v))) == m_ins(m_ext(Seq::<(K, V)>::empty(), s), k, v),
        sorted(s) ==> m_ext(Seq::<(K, V)>::empty(), s) == s,
{
    assert(s.push((k, v)).drop_last() =~= s);
    assert(Seq::<(K, V)>::empty() + s =~= s);
    if sorted(s) { lemma_sorted_empty(Seq::<(K, V)>::empty()); lemma_ext_sorted(Seq::<(K, V)>::empty(), s); }
    lemma_sorted_empty(Seq::<(K, V)>::empty());
    lemma_ext(Seq::<(K, V)>::empty(), s);
}
// comparisons on a lawful order
#[verifier::external_body]
pub fn vle<Q: Ord + ?Sized>(a: &Q, b: &Q) -> (r: bool)
    ensures r == !(a.cmp_spec(b) is Greater)
{ a <= b }

#[verifier::external_body]
pub fn vge<Q: Ord + ?Sized>(a: &Q, b: &Q) -> (r: bool)
    ensures r == !(a.cmp_spec(b) is Less)
{ a >= b }

// `<`, `>` on a lawful order
#[verifier::external_body]
pub fn vlt<Q: Ord + ?Sized>(a: &Q, b: &Q) -> (r: bool)
    ensures r == (a.cmp_spec(b) is Less)
{ a < b }

#[verifier::external_body]
pub fn vgt<Q: Ord + ?Sized>(a: &Q, b: &Q) -> (r: bool)
    ensures r == (a.cmp_spec(b) is Greater)
{ a > b }

// std's iterator `map`: the source and the function applied to each item
pub struct VMapped<I, F> { pub i: I, pub f: F }
pub trait VMapIt: Sized {
    fn vmap_it<F>(self, f: F) -> (r: VMapped<Self, F>)
        ensures r.i == self, r.f == f;
}
impl<I> VMapIt for I {
    fn vmap_it<F>(self, f: F) -> (r: VMapped<Self, F>) { VMapped { i: self, f } }
}
// lookups of the four set operations, from the lookups of the operands
spec fn s_and<E>(a: Option<E>, b: Option<E>) -> Option<E> { if b is Some { a } else { None } }
spec fn s_or<E>(a: Option<E>, b: Option<E>) -> Option<E> { if b is Some { b } else { a } }
spec fn s_sub<E>(a: Option<E>, b: Option<E>) -> Option<E> { if b is Some { None } else { a } }
spec fn s_xor<E>(a: Option<E>, b: Option<E>) -> Option<E> {
    if a is Some && b is Some { None } else if a is Some { a } else { b }
}
