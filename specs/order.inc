#raw
// ---------------------------------------------------------------------------
// Order laws assumed of the key types (the documented contract of Ord/Borrow).
// ---------------------------------------------------------------------------
pub open spec fn lt<K: Ord>(a: K, b: K) -> bool { a.cmp_spec(&b) is Less }

// K's `Ord` is a lawful total order that agrees with `PartialOrd`.
pub open spec fn lawful<K: Ord>() -> bool {
    &&& K::obeys_cmp_spec()
    &&& K::obeys_partial_cmp_spec()
    &&& ord_laws::<K>()
}

#[verifier::opaque]
pub open spec fn ord_laws<K: Ord>() -> bool {
    &&& forall|a: K, b: K| (#[trigger] a.partial_cmp_spec(&b)) == Some(a.cmp_spec(&b))
    &&& forall|a: K, b: K| (a.cmp_spec(&b) is Less) == (#[trigger] b.cmp_spec(&a) is Greater)
    &&& forall|a: K, b: K, c: K| #![trigger a.cmp_spec(&b), b.cmp_spec(&c)]
            !(a.cmp_spec(&b) is Greater) && !(b.cmp_spec(&c) is Greater) ==>
                !(a.cmp_spec(&c) is Greater)
                && ((a.cmp_spec(&b) is Less || b.cmp_spec(&c) is Less) ==> a.cmp_spec(&c) is Less)
}

// the laws, one instance at a time
pub proof fn law_flip<K: Ord>(a: K, b: K)
    requires lawful::<K>(),
    ensures
        (a.cmp_spec(&b) is Less) == (b.cmp_spec(&a) is Greater),
        (a.cmp_spec(&b) is Greater) == (b.cmp_spec(&a) is Less),
        (a.cmp_spec(&b) is Equal) == (b.cmp_spec(&a) is Equal),
        a.cmp_spec(&a) is Equal,
        a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b)),
{
    reveal(ord_laws);
    let _ = (a.cmp_spec(&b), b.cmp_spec(&a), a.partial_cmp_spec(&b));
}

pub proof fn law_trans<K: Ord>(a: K, b: K, c: K)
    requires lawful::<K>(),
    ensures
        a.cmp_spec(&b) is Equal ==> a.cmp_spec(&c) == b.cmp_spec(&c) && c.cmp_spec(&a) == c.cmp_spec(&b),
        a.cmp_spec(&b) is Less && !(b.cmp_spec(&c) is Greater) ==> a.cmp_spec(&c) is Less,
        !(a.cmp_spec(&b) is Greater) && b.cmp_spec(&c) is Less ==> a.cmp_spec(&c) is Less,
        a.cmp_spec(&b) is Greater && !(b.cmp_spec(&c) is Less) ==> a.cmp_spec(&c) is Greater,
        !(a.cmp_spec(&b) is Less) && b.cmp_spec(&c) is Greater ==> a.cmp_spec(&c) is Greater,
{
    reveal(ord_laws);
    let _ = (a.cmp_spec(&b), b.cmp_spec(&a), a.cmp_spec(&c), c.cmp_spec(&a), b.cmp_spec(&c), c.cmp_spec(&b));
}

// the value behind `Borrow::borrow` (uninterpreted, only assumed order preserving)
pub uninterp spec fn bor<K, Q>(k: K) -> Q;

pub trait VBorrow<Q>: Sized {
    fn vborrow(&self) -> (r: &Q)
        ensures *r == bor::<Self, Q>(*self);
}

impl<K: Borrow<Q>, Q> VBorrow<Q> for K {
    #[verifier::external_body]
    fn vborrow(&self) -> (r: &Q) { self.borrow() }
}

pub open spec fn lawful_q<K: Ord, Q: Ord>() -> bool {
    &&& lawful::<K>()
    &&& lawful::<Q>()
    &&& bor_laws::<K, Q>()
}

#[verifier::opaque]
pub open spec fn bor_laws<K: Ord, Q: Ord>() -> bool {
    forall|a: K, b: K| #![trigger bor::<K, Q>(a), bor::<K, Q>(b)]
            bor::<K, Q>(a).cmp_spec(&bor::<K, Q>(b)) == a.cmp_spec(&b)
}

// core's blanket `impl<T> Borrow<T> for T` returns its receiver
pub broadcast axiom fn axiom_bor_refl<K>(k: K)
    ensures #[trigger] bor::<K, K>(k) == k;

pub proof fn lemma_lawful_refl<K: Ord>()
    requires lawful::<K>(),
    ensures lawful_q::<K, K>(), forall|k: K| #[trigger] qcut::<K, K>(k) == kcut(k),
{
    broadcast use axiom_bor_refl;
    reveal(bor_laws);
    assert forall|k: K| #[trigger] qcut::<K, K>(k) == kcut(k) by {
        assert(qcut::<K, K>(k) =~= kcut(k));
    }
}

// ---------------------------------------------------------------------------
// Sorted sequences of entries: the abstract value of every map in this crate.
// A "cut" compares a target with a key: Less = the target is below the key.
// ---------------------------------------------------------------------------
pub type Cut<K> = spec_fn(K) -> Ordering;

pub open spec fn kcut<K: Ord>(k: K) -> Cut<K> { |x: K| k.cmp_spec(&x) }
pub open spec fn qcut<K, Q: Ord>(q: Q) -> Cut<K> { |x: K| q.cmp_spec(&bor::<K, Q>(x)) }

#[verifier::opaque]
pub open spec fn mono<K: Ord>(c: Cut<K>) -> bool {
    forall|x: K, y: K| #![trigger c(x), c(y)] lt(x, y) ==>
        (!(c(x) is Greater) ==> c(y) is Less) && (!(c(y) is Less) ==> c(x) is Greater)
}

#[verifier::opaque]
pub open spec fn sorted<K: Ord, V>(s: Seq<(K, V)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(#[trigger] s[i].0, #[trigger] s[j].0)
}

// number of leading entries below the target
#[verifier::opaque]
pub open spec fn idx<K, V>(s: Seq<(K, V)>, c: Cut<K>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 }
    else if c(s[0].0) is Greater { 1 + idx(s.skip(1), c) }
    else { 0 }
}

pub open spec fn has_key<K, V>(s: Seq<(K, V)>, c: Cut<K>) -> bool {
    idx(s, c) < s.len() && c(s[idx(s, c)].0) is Equal
}

pub open spec fn m_get<K, V>(s: Seq<(K, V)>, c: Cut<K>) -> Option<(K, V)> {
    if has_key(s, c) { Some(s[idx(s, c)]) } else { None }
}

pub open spec fn m_ins<K: Ord, V>(s: Seq<(K, V)>, k: K, v: V) -> Seq<(K, V)> {
    let c = kcut(k);
    if has_key(s, c) { s.update(idx(s, c), (k, v)) } else { s.insert(idx(s, c), (k, v)) }
}

pub open spec fn m_rm<K, V>(s: Seq<(K, V)>, c: Cut<K>) -> Seq<(K, V)> {
    if has_key(s, c) { s.remove(idx(s, c)) } else { s }
}

pub open spec fn val_of<K, V>(o: Option<(K, V)>) -> Option<V> {
    match o { Some(e) => Some(e.1), None => None }
}

pub broadcast proof fn lemma_kcut_mono<K: Ord>(k: K)
    requires lawful::<K>(),
    ensures #[trigger] mono(kcut(k)),
{
    reveal(ord_laws);
    reveal(mono);
    let c = kcut(k);
    assert forall|x: K, y: K| #![trigger c(x), c(y)] lt(x, y) implies
        (!(c(x) is Greater) ==> c(y) is Less) && (!(c(y) is Less) ==> c(x) is Greater) by {
        let _ = (k.cmp_spec(&x), x.cmp_spec(&y), k.cmp_spec(&y), y.cmp_spec(&k), x.cmp_spec(&k));
        if !(c(y) is Less) && !(c(x) is Greater) {
            assert(k.cmp_spec(&x) is Less || k.cmp_spec(&x) is Equal);
            assert(k.cmp_spec(&y) is Less);
        }
    }
}

pub broadcast proof fn lemma_qcut_mono<K: Ord, Q: Ord>(q: Q)
    requires lawful_q::<K, Q>(),
    ensures #[trigger] mono(qcut::<K, Q>(q)),
{
    reveal(ord_laws);
    reveal(mono);
    let c = qcut::<K, Q>(q);
    assert forall|x: K, y: K| #![trigger c(x), c(y)] lt(x, y) implies
        (!(c(x) is Greater) ==> c(y) is Less) && (!(c(y) is Less) ==> c(x) is Greater) by {
        let (bx, by) = (bor::<K, Q>(x), bor::<K, Q>(y));
        reveal(bor_laws);
        assert(bx.cmp_spec(&by) is Less);
        if !(c(x) is Greater) { assert(q.cmp_spec(&by) is Less); }
    }
}

// idx is characterised by its position in a sorted sequence
pub proof fn lemma_idx<K: Ord, V>(s: Seq<(K, V)>, c: Cut<K>)
    ensures
        0 <= idx(s, c) <= s.len(),
        forall|i: int| 0 <= i < idx(s, c) ==> c(#[trigger] s[i].0) is Greater,
        idx(s, c) < s.len() ==> !(c(s[idx(s, c)].0) is Greater),
        sorted(s) && mono(c) ==> forall|i: int| idx(s, c) < i < s.len() ==> c(#[trigger] s[i].0) is Less,
    decreases s.len()
{
    reveal(idx);
    reveal(sorted);
    reveal(mono);
    if s.len() > 0 && c(s[0].0) is Greater {
        let t = s.skip(1);
        lemma_idx(t, c);
        assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i + 1]);
        assert forall|i: int| 0 <= i < idx(s, c) implies c(#[trigger] s[i].0) is Greater by {
            if i > 0 { assert(s[i] == t[i - 1]); }
        }
        if sorted(s) {
            assert(sorted(t)) by {
                assert forall|i: int, j: int| 0 <= i < j < t.len() implies lt(#[trigger] t[i].0, #[trigger] t[j].0) by {
                    assert(lt(s[i + 1].0, s[j + 1].0));
                }
            }
            if mono(c) {
                assert forall|i: int| idx(s, c) < i < s.len() implies c(#[trigger] s[i].0) is Less by {
                    assert(s[i] == t[i - 1]);
                }
            }
        }
    } else if s.len() > 0 {
        if sorted(s) && mono(c) {
            assert forall|i: int| 0 < i < s.len() implies c(#[trigger] s[i].0) is Less by {
                assert(lt(s[0].0, s[i].0));
                let _ = (c(s[0].0), c(s[i].0));
            }
        }
    }
}

pub proof fn lemma_idx_unique<K: Ord, V>(s: Seq<(K, V)>, c: Cut<K>, n: int)
    requires
        0 <= n <= s.len(),
        forall|i: int| 0 <= i < n ==> c(#[trigger] s[i].0) is Greater,
        n < s.len() ==> !(c(s[n].0) is Greater),
    ensures idx(s, c) == n,
{
    lemma_idx(s, c);
    if idx(s, c) < n { assert(c(s[idx(s, c)].0) is Greater); }
    if idx(s, c) > n { assert(c(s[n].0) is Greater); }
}

// sortedness of l + [e] + r, split into its parts
pub open spec fn cat<K, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>) -> Seq<(K, V)> {
    l + seq![e] + r
}

#[verifier::opaque]
pub open spec fn all_lt<K: Ord, V>(s: Seq<(K, V)>, k: K) -> bool {
    forall|i: int| 0 <= i < s.len() ==> lt(#[trigger] s[i].0, k)
}

#[verifier::opaque]
pub open spec fn all_gt<K: Ord, V>(s: Seq<(K, V)>, k: K) -> bool {
    forall|i: int| 0 <= i < s.len() ==> lt(k, #[trigger] s[i].0)
}

pub broadcast proof fn lemma_sorted_cat<K: Ord, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>)
    requires lawful::<K>(),
    ensures #[trigger] sorted(cat(l, e, r)) <==> sorted(l) && sorted(r) && all_lt(l, e.0) && all_gt(r, e.0),
{
    reveal(ord_laws);
    reveal(sorted);
    reveal(all_lt);
    reveal(all_gt);
    let s = cat(l, e, r);
    let n = l.len() as int;
    assert(s[n] == e);
    assert(forall|i: int| 0 <= i < n ==> s[i] == l[i]);
    assert(forall|i: int| n < i < s.len() ==> s[i] == r[i - n - 1]);
    if sorted(s) {
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies lt(#[trigger] l[i].0, #[trigger] l[j].0) by {
            assert(lt(s[i].0, s[j].0));
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt(#[trigger] r[i].0, #[trigger] r[j].0) by {
            assert(lt(s[n + 1 + i].0, s[n + 1 + j].0));
        }
        assert forall|i: int| 0 <= i < l.len() implies lt(#[trigger] l[i].0, e.0) by {
            assert(lt(s[i].0, s[n].0));
        }
        assert forall|i: int| 0 <= i < r.len() implies lt(e.0, #[trigger] r[i].0) by {
            assert(lt(s[n].0, s[n + 1 + i].0));
        }
    }
    if sorted(l) && sorted(r) && all_lt(l, e.0) && all_gt(r, e.0) {
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies lt(#[trigger] s[i].0, #[trigger] s[j].0) by {
            if i < n && j > n {
                let (a, b, d) = (s[i].0, e.0, s[j].0);
                assert(lt(l[i].0, e.0));
                assert(lt(e.0, r[j - n - 1].0));
                assert(a.cmp_spec(&b) is Less && b.cmp_spec(&d) is Less);
            } else if i < n && j == n {
                assert(lt(l[i].0, e.0));
            } else if i == n {
                assert(lt(e.0, r[j - n - 1].0));
            }
        }
    }
}

// where a cut falls in l + [e] + r
pub broadcast proof fn lemma_idx_cat<K: Ord, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, c: Cut<K>)
    requires sorted(cat(l, e, r)), mono(c), lawful::<K>(),
    ensures
        0 <= idx(l, c) <= l.len(),
        0 <= idx(r, c) <= r.len(),
        #[trigger] idx(cat(l, e, r), c) == (match c(e.0) {
            Ordering::Less => idx(l, c),
            Ordering::Equal => l.len() as int,
            Ordering::Greater => l.len() + 1 + idx(r, c),
        }),
        has_key(cat(l, e, r), c) == (match c(e.0) {
            Ordering::Less => has_key(l, c),
            Ordering::Equal => true,
            Ordering::Greater => has_key(r, c),
        }),
{
    reveal(ord_laws);
    let s = cat(l, e, r);
    lemma_sorted_cat(l, e, r);
    lemma_idx(l, c);
    lemma_idx(r, c);
    lemma_idx(s, c);
    reveal(all_lt);
    reveal(all_gt);
    reveal(mono);
    let n = l.len() as int;
    assert(s[n] == e);
    assert(forall|i: int| 0 <= i < n ==> s[i] == l[i]);
    assert(forall|i: int| n < i < s.len() ==> s[i] == r[i - n - 1]);
    let _ = c(e.0);
    match c(e.0) {
        Ordering::Less => { lemma_idx_unique(s, c, idx(l, c)); }
        Ordering::Equal => {
            assert forall|i: int| 0 <= i < n implies c(#[trigger] s[i].0) is Greater by {
                assert(lt(l[i].0, e.0));
            }
            lemma_idx_unique(s, c, n);
        }
        Ordering::Greater => {
            let m = n + 1 + idx(r, c);
            assert forall|i: int| 0 <= i < m implies c(#[trigger] s[i].0) is Greater by {
                if i < n { assert(lt(l[i].0, e.0)); }
                else if i > n { assert(c(r[i - n - 1].0) is Greater); }
            }
            lemma_idx_unique(s, c, m);
        }
    }
}

// the map operations on l + [e] + r
pub broadcast proof fn lemma_ins_cat<K: Ord, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, k: K, v: V)
    requires sorted(cat(l, e, r)), lawful::<K>(),
    ensures #[trigger] m_ins(cat(l, e, r), k, v) == (match kcut(k)(e.0) {
            Ordering::Less => cat(m_ins(l, k, v), e, r),
            Ordering::Equal => cat(l, (k, v), r),
            Ordering::Greater => cat(l, e, m_ins(r, k, v)),
        }),
{
    lemma_kcut_mono(k);
    lemma_idx_cat(l, e, r, kcut(k));
    let rhs = (match kcut(k)(e.0) {
            Ordering::Less => cat(m_ins(l, k, v), e, r),
            Ordering::Equal => cat(l, (k, v), r),
            Ordering::Greater => cat(l, e, m_ins(r, k, v)),
        });
    assert(m_ins(cat(l, e, r), k, v) =~= rhs);
}

pub broadcast proof fn lemma_rm_cat<K: Ord, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, c: Cut<K>)
    requires sorted(cat(l, e, r)), mono(c), lawful::<K>(),
    ensures #[trigger] m_rm(cat(l, e, r), c) == (match c(e.0) {
            Ordering::Less => cat(m_rm(l, c), e, r),
            Ordering::Equal => l + r,
            Ordering::Greater => cat(l, e, m_rm(r, c)),
        }),
{
    lemma_idx_cat(l, e, r, c);
    let rhs = (match c(e.0) {
            Ordering::Less => cat(m_rm(l, c), e, r),
            Ordering::Equal => l + r,
            Ordering::Greater => cat(l, e, m_rm(r, c)),
        });
    assert(m_rm(cat(l, e, r), c) =~= rhs);
}

pub broadcast proof fn lemma_get_cat<K: Ord, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, c: Cut<K>)
    requires sorted(cat(l, e, r)), mono(c), lawful::<K>(),
    ensures #[trigger] m_get(cat(l, e, r), c) == (match c(e.0) {
            Ordering::Less => m_get(l, c),
            Ordering::Equal => Some(e),
            Ordering::Greater => m_get(r, c),
        }),
{
    lemma_idx_cat(l, e, r, c);
}

// inserting keeps a sequence sorted
pub broadcast proof fn lemma_ins_sorted<K: Ord, V>(s: Seq<(K, V)>, k: K, v: V)
    requires sorted(s), lawful::<K>(),
    ensures
        sorted(#[trigger] m_ins(s, k, v)),
        m_ins(s, k, v).len() == s.len() + (if has_key(s, kcut(k)) { 0int } else { 1 }),
        0 <= idx(s, kcut(k)) <= s.len(),
{
    reveal(ord_laws);
    let c = kcut(k);
    lemma_kcut_mono(k);
    lemma_idx(s, c);
    reveal(sorted);
    let i = idx(s, c);
    let t = m_ins(s, k, v);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies lt(#[trigger] t[a].0, #[trigger] t[b].0) by {
        let d: int = if has_key(s, c) { 0 } else { 1 };
        if a < i { assert(t[a] == s[a]); assert(c(s[a].0) is Greater); assert(lt(s[a].0, k)); }
        if b > i { assert(t[b] == s[b - d]); if b - d > i || d == 1 { assert(c(s[b - d].0) is Less); } }
        if a > i { assert(t[a] == s[a - d]); }
        if b < i { assert(t[b] == s[b]); }
    }
}

pub broadcast proof fn lemma_rm_sorted<K: Ord, V>(s: Seq<(K, V)>, c: Cut<K>)
    requires sorted(s), lawful::<K>(),
    ensures
        sorted(#[trigger] m_rm(s, c)),
        m_rm(s, c).len() == s.len() - (if has_key(s, c) { 1int } else { 0 }),
        0 <= idx(s, c) <= s.len(),
{
    reveal(ord_laws);
    lemma_idx(s, c);
    reveal(sorted);
    let t = m_rm(s, c);
    let i = idx(s, c);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies lt(#[trigger] t[a].0, #[trigger] t[b].0) by {
        if has_key(s, c) {
            let a1 = if a < i { a } else { a + 1 };
            let b1 = if b < i { b } else { b + 1 };
            assert(t[a] == s[a1] && t[b] == s[b1]);
            assert(lt(s[a1].0, s[b1].0));
        }
    }
}

pub broadcast proof fn lemma_sorted_empty<K: Ord, V>(s: Seq<(K, V)>)
    requires s.len() == 0,
    ensures #[trigger] sorted(s),
{
    reveal(sorted);
}

pub broadcast proof fn lemma_idx_empty<K, V>(s: Seq<(K, V)>, c: Cut<K>)
    requires s.len() == 0,
    ensures #[trigger] idx(s, c) == 0,
{
    reveal(idx);
}

// associativity: rotations keep the in-order sequence
pub broadcast proof fn lemma_cat_assoc<K, V>(a: Seq<(K, V)>, e: (K, V), b: Seq<(K, V)>, f: (K, V), c: Seq<(K, V)>)
    ensures #[trigger] cat(cat(a, e, b), f, c) == cat(a, e, cat(b, f, c)),
{
    assert(cat(cat(a, e, b), f, c) =~= cat(a, e, cat(b, f, c)));
}

pub broadcast proof fn lemma_cat_len<K, V>(a: Seq<(K, V)>, e: (K, V), b: Seq<(K, V)>)
    ensures (#[trigger] cat(a, e, b)).len() == a.len() + 1 + b.len(),
{
}

// lookups in a sorted sequence, by membership
pub proof fn lemma_get_mem<K: Ord, V>(s: Seq<(K, V)>, c: Cut<K>)
    requires sorted(s), mono(c),
    ensures
        forall|i: int| 0 <= i < s.len() && c(#[trigger] s[i].0) is Equal ==> m_get(s, c) == Some(s[i]),
        m_get(s, c) is Some ==> exists|i: int| 0 <= i < s.len() && c(#[trigger] s[i].0) is Equal && m_get(s, c) == Some(s[i]),
        m_get(s, c) is Some ==> c((m_get(s, c)->0).0) is Equal,
{
    lemma_idx(s, c);
    if m_get(s, c) is Some { assert(c(s[idx(s, c)].0) is Equal); }
}

// the same, with the entry `e` (which lies between l and r) left out
pub proof fn lemma_get_plus<K: Ord, V>(l: Seq<(K, V)>, k: K, r: Seq<(K, V)>, c: Cut<K>)
    requires sorted(l), sorted(r), all_lt(l, k), all_gt(r, k), mono(c), lawful::<K>(),
    ensures
        sorted(l + r),
        m_get(l + r, c) == (match c(k) {
            Ordering::Less => m_get(l, c),
            Ordering::Equal => None,
            Ordering::Greater => m_get(r, c),
        }),
{
    reveal(ord_laws);
    reveal(sorted);
    reveal(all_lt);
    reveal(all_gt);
    let s = l + r;
    assert(forall|i: int| 0 <= i < l.len() ==> s[i] == l[i]);
    assert(forall|i: int| l.len() <= i < s.len() ==> s[i] == r[i - l.len()]);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies lt(#[trigger] s[i].0, #[trigger] s[j].0) by {
        if i < l.len() && j >= l.len() {
            assert(lt(l[i].0, k));
            assert(lt(k, r[j - l.len()].0));
            assert(s[i].0.cmp_spec(&k) is Less && k.cmp_spec(&s[j].0) is Less);
        }
    }
    lemma_idx(l, c);
    lemma_idx(r, c);
    lemma_idx(s, c);
    reveal(mono);
    match c(k) {
        Ordering::Less => {
            assert forall|i: int| 0 <= i < r.len() implies c(#[trigger] r[i].0) is Less by {
                let _ = (c(k), c(r[i].0));
                assert(lt(k, r[i].0));
            }
            lemma_idx_unique(s, c, idx(l, c));
        }
        Ordering::Equal => {
            assert forall|i: int| 0 <= i < l.len() implies c(#[trigger] l[i].0) is Greater by { assert(lt(l[i].0, k)); let _ = (c(l[i].0), c(k)); }
            assert forall|i: int| 0 <= i < r.len() implies c(#[trigger] r[i].0) is Less by { assert(lt(k, r[i].0)); let _ = (c(k), c(r[i].0)); }
            lemma_idx_unique(s, c, l.len() as int);
        }
        Ordering::Greater => {
            assert forall|i: int| 0 <= i < l.len() implies c(#[trigger] l[i].0) is Greater by { assert(lt(l[i].0, k)); let _ = (c(l[i].0), c(k)); }
            assert forall|i: int| 0 <= i < l.len() + idx(r, c) implies c(#[trigger] s[i].0) is Greater by {
                if i >= l.len() { assert(c(r[i - l.len()].0) is Greater); }
            }
            lemma_idx_unique(s, c, l.len() + idx(r, c));
        }
    }
}

// two sorted sequences that answer every lookup alike are the same sequence
pub open spec fn same_gets<K: Ord, V>(s: Seq<(K, V)>, t: Seq<(K, V)>) -> bool {
    forall|k: K| #[trigger] m_get(s, kcut(k)) == m_get(t, kcut(k))
}

// every entry of s is found by looking up its own key; keys of s below/above k
pub proof fn lemma_get_own<K: Ord, V>(s: Seq<(K, V)>, i: int)
    requires sorted(s), lawful::<K>(), 0 <= i < s.len(),
    ensures m_get(s, kcut(s[i].0)) == Some(s[i]),
{
    lemma_kcut_mono(s[i].0);
    lemma_get_mem(s, kcut(s[i].0));
    law_flip(s[i].0, s[i].0);
}

pub proof fn lemma_all_lt_gets<K: Ord, V>(s: Seq<(K, V)>, k: K)
    requires sorted(s), lawful::<K>(),
    ensures
        all_lt(s, k) <==> (forall|x: K| (#[trigger] m_get(s, kcut(x))) is Some ==> lt(x, k)),
        all_gt(s, k) <==> (forall|x: K| (#[trigger] m_get(s, kcut(x))) is Some ==> lt(k, x)),
{
    reveal(all_lt);
    reveal(all_gt);
    assert forall|x: K| all_lt(s, k) && (#[trigger] m_get(s, kcut(x))) is Some implies lt(x, k) by {
        lemma_kcut_mono(x);
        lemma_get_mem(s, kcut(x));
        let y = (m_get(s, kcut(x))->0).0;
        lemma_idx(s, kcut(x));
        assert(lt(y, k));
        law_trans(x, y, k);
    }
    assert forall|x: K| all_gt(s, k) && (#[trigger] m_get(s, kcut(x))) is Some implies lt(k, x) by {
        lemma_kcut_mono(x);
        lemma_get_mem(s, kcut(x));
        let y = (m_get(s, kcut(x))->0).0;
        lemma_idx(s, kcut(x));
        assert(lt(k, y));
        law_trans(x, y, k);
    }
    if forall|x: K| (#[trigger] m_get(s, kcut(x))) is Some ==> lt(x, k) {
        assert forall|i: int| 0 <= i < s.len() implies lt(#[trigger] s[i].0, k) by {
            lemma_get_own(s, i);
        }
    }
    if forall|x: K| (#[trigger] m_get(s, kcut(x))) is Some ==> lt(k, x) {
        assert forall|i: int| 0 <= i < s.len() implies lt(k, #[trigger] s[i].0) by {
            lemma_get_own(s, i);
        }
    }
}

// the same relations, piecewise
pub broadcast proof fn lemma_lt_cat<K: Ord, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, k: K)
    ensures #[trigger] all_lt(cat(l, e, r), k) == (all_lt(l, k) && lt(e.0, k) && all_lt(r, k)),
{
    reveal(all_lt);
    let s = cat(l, e, r);
    let n = l.len() as int;
    assert(s[n] == e);
    assert(forall|i: int| 0 <= i < n ==> l[i] == s[i]);
    assert(forall|i: int| 0 <= i < r.len() ==> r[i] == s[i + n + 1]);
    assert(forall|i: int| n < i < s.len() ==> s[i] == r[i - n - 1]);
    if all_lt(s, k) {
        assert forall|i: int| 0 <= i < l.len() implies lt(#[trigger] l[i].0, k) by { assert(lt(s[i].0, k)); }
        assert forall|i: int| 0 <= i < r.len() implies lt(#[trigger] r[i].0, k) by { assert(lt(s[i + n + 1].0, k)); }
        assert(lt(s[n].0, k));
    }
}

pub broadcast proof fn lemma_gt_cat<K: Ord, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, k: K)
    ensures #[trigger] all_gt(cat(l, e, r), k) == (all_gt(l, k) && lt(k, e.0) && all_gt(r, k)),
{
    reveal(all_gt);
    let s = cat(l, e, r);
    let n = l.len() as int;
    assert(s[n] == e);
    assert(forall|i: int| 0 <= i < n ==> l[i] == s[i]);
    assert(forall|i: int| 0 <= i < r.len() ==> r[i] == s[i + n + 1]);
    assert(forall|i: int| n < i < s.len() ==> s[i] == r[i - n - 1]);
    if all_gt(s, k) {
        assert forall|i: int| 0 <= i < l.len() implies lt(k, #[trigger] l[i].0) by { assert(lt(k, s[i].0)); }
        assert forall|i: int| 0 <= i < r.len() implies lt(k, #[trigger] r[i].0) by { assert(lt(k, s[i + n + 1].0)); }
        assert(lt(k, s[n].0));
    }
}

pub broadcast proof fn lemma_lt_plus<K: Ord, V>(l: Seq<(K, V)>, r: Seq<(K, V)>, k: K)
    ensures
        #[trigger] all_lt(l + r, k) == (all_lt(l, k) && all_lt(r, k)),
{
    reveal(all_lt);
    let s = l + r;
    let n = l.len() as int;
    assert(forall|i: int| 0 <= i < n ==> l[i] == s[i]);
    assert(forall|i: int| 0 <= i < r.len() ==> r[i] == s[i + n]);
    assert(forall|i: int| n <= i < s.len() ==> s[i] == r[i - n]);
    if all_lt(s, k) {
        assert forall|i: int| 0 <= i < l.len() implies lt(#[trigger] l[i].0, k) by { assert(lt(s[i].0, k)); }
        assert forall|i: int| 0 <= i < r.len() implies lt(#[trigger] r[i].0, k) by { assert(lt(s[i + n].0, k)); }
    }
}

pub broadcast proof fn lemma_gt_plus<K: Ord, V>(l: Seq<(K, V)>, r: Seq<(K, V)>, k: K)
    ensures
        #[trigger] all_gt(l + r, k) == (all_gt(l, k) && all_gt(r, k)),
{
    reveal(all_gt);
    let s = l + r;
    let n = l.len() as int;
    assert(forall|i: int| 0 <= i < n ==> l[i] == s[i]);
    assert(forall|i: int| 0 <= i < r.len() ==> r[i] == s[i + n]);
    assert(forall|i: int| n <= i < s.len() ==> s[i] == r[i - n]);
    if all_gt(s, k) {
        assert forall|i: int| 0 <= i < l.len() implies lt(k, #[trigger] l[i].0) by { assert(lt(k, s[i].0)); }
        assert forall|i: int| 0 <= i < r.len() implies lt(k, #[trigger] r[i].0) by { assert(lt(k, s[i + n].0)); }
    }
}

// parts of a sorted concatenation are sorted
pub broadcast proof fn lemma_sorted_plus<K: Ord, V>(l: Seq<(K, V)>, r: Seq<(K, V)>)
    requires sorted(#[trigger] (l + r)),
    ensures sorted(l), sorted(r),
{
    reveal(sorted);
    let s = l + r;
    let n = l.len() as int;
    assert(forall|i: int| 0 <= i < n ==> l[i] == s[i]);
    assert(forall|i: int| 0 <= i < r.len() ==> r[i] == s[i + n]);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies lt(#[trigger] l[i].0, #[trigger] l[j].0) by { assert(lt(s[i].0, s[j].0)); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt(#[trigger] r[i].0, #[trigger] r[j].0) by { assert(lt(s[i + n].0, s[j + n].0)); }
}

// entries below / above a target
#[verifier::opaque]
pub open spec fn below<K, V>(s: Seq<(K, V)>, c: Cut<K>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> c(#[trigger] s[i].0) is Greater
}

#[verifier::opaque]
pub open spec fn above<K, V>(s: Seq<(K, V)>, c: Cut<K>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> c(#[trigger] s[i].0) is Less
}

pub broadcast proof fn lemma_below_cat<K, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, c: Cut<K>)
    ensures #[trigger] below(cat(l, e, r), c) == (below(l, c) && c(e.0) is Greater && below(r, c)),
{
    reveal(below);
    let s = cat(l, e, r);
    let n = l.len() as int;
    assert(s[n] == e);
    assert(forall|i: int| 0 <= i < n ==> l[i] == s[i]);
    assert(forall|i: int| 0 <= i < r.len() ==> r[i] == s[i + n + 1]);
    assert(forall|i: int| n < i < s.len() ==> s[i] == r[i - n - 1]);
    if below(s, c) {
        assert forall|i: int| 0 <= i < l.len() implies c(#[trigger] l[i].0) is Greater by { assert(c(s[i].0) is Greater); }
        assert forall|i: int| 0 <= i < r.len() implies c(#[trigger] r[i].0) is Greater by { assert(c(s[i + n + 1].0) is Greater); }
        assert(c(s[n].0) is Greater);
    }
}

pub broadcast proof fn lemma_above_cat<K, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, c: Cut<K>)
    ensures #[trigger] above(cat(l, e, r), c) == (above(l, c) && c(e.0) is Less && above(r, c)),
{
    reveal(above);
    let s = cat(l, e, r);
    let n = l.len() as int;
    assert(s[n] == e);
    assert(forall|i: int| 0 <= i < n ==> l[i] == s[i]);
    assert(forall|i: int| 0 <= i < r.len() ==> r[i] == s[i + n + 1]);
    assert(forall|i: int| n < i < s.len() ==> s[i] == r[i - n - 1]);
    if above(s, c) {
        assert forall|i: int| 0 <= i < l.len() implies c(#[trigger] l[i].0) is Less by { assert(c(s[i].0) is Less); }
        assert forall|i: int| 0 <= i < r.len() implies c(#[trigger] r[i].0) is Less by { assert(c(s[i + n + 1].0) is Less); }
        assert(c(s[n].0) is Less);
    }
}

// a sorted sequence around an entry: what lies below/above the entry's side
pub proof fn lemma_below_lt<K: Ord, V>(s: Seq<(K, V)>, k: K, c: Cut<K>)
    requires mono(c), lawful::<K>(),
    ensures
        all_lt(s, k) && !(c(k) is Less) ==> below(s, c),
        all_gt(s, k) && !(c(k) is Greater) ==> above(s, c),
{
    reveal(ord_laws);
    reveal(below);
    reveal(above);
    reveal(all_lt);
    reveal(all_gt);
    reveal(mono);
    let _ = c(k);
    if all_lt(s, k) && !(c(k) is Less) {
        assert forall|i: int| 0 <= i < s.len() implies c(#[trigger] s[i].0) is Greater by { assert(lt(s[i].0, k)); }
    }
    if all_gt(s, k) && !(c(k) is Greater) {
        assert forall|i: int| 0 <= i < s.len() implies c(#[trigger] s[i].0) is Less by { assert(lt(k, s[i].0)); }
    }
}

pub broadcast proof fn lemma_below_empty<K, V>(s: Seq<(K, V)>, c: Cut<K>)
    requires s.len() == 0,
    ensures #[trigger] below(s, c),
{
    reveal(below);
}

pub broadcast proof fn lemma_above_empty<K, V>(s: Seq<(K, V)>, c: Cut<K>)
    requires s.len() == 0,
    ensures #[trigger] above(s, c),
{
    reveal(above);
}

pub proof fn lemma_kcut_sides<K: Ord, V>(s: Seq<(K, V)>, k: K)
    requires lawful::<K>(),
    ensures below(s, kcut(k)) == all_lt(s, k), above(s, kcut(k)) == all_gt(s, k),
{
    reveal(ord_laws);
    reveal(below);
    reveal(above);
    reveal(all_lt);
    reveal(all_gt);
    if below(s, kcut(k)) {
        assert forall|i: int| 0 <= i < s.len() implies lt(#[trigger] s[i].0, k) by { assert(kcut(k)(s[i].0) is Greater); }
    }
    if all_lt(s, k) {
        assert forall|i: int| 0 <= i < s.len() implies kcut(k)(#[trigger] s[i].0) is Greater by { assert(lt(s[i].0, k)); }
    }
}

// the prefix below a target, the entry that matches it, and the rest
pub proof fn lemma_split<K: Ord, V>(l: Seq<(K, V)>, r: Seq<(K, V)>, e: (K, V), c: Cut<K>)
    requires below(l, c), above(r, c), mono(c), lawful::<K>(),
    ensures
        idx(l + r, c) == l.len(),
        !has_key(l + r, c),
        c(e.0) is Equal ==> idx(cat(l, e, r), c) == l.len() && has_key(cat(l, e, r), c),
{
    reveal(ord_laws);
    reveal(below);
    reveal(above);
    let s = l + r;
    assert(forall|i: int| 0 <= i < l.len() ==> s[i] == l[i]);
    assert(forall|i: int| l.len() <= i < s.len() ==> s[i] == r[i - l.len()]);
    assert forall|i: int| 0 <= i < l.len() implies c(#[trigger] s[i].0) is Greater by { assert(c(l[i].0) is Greater); }
    if l.len() < s.len() { assert(c(r[0].0) is Less); }
    lemma_idx_unique(s, c, l.len() as int);
    if c(e.0) is Equal {
        let t = cat(l, e, r);
        assert(t[l.len() as int] == e);
        assert forall|i: int| 0 <= i < l.len() implies c(#[trigger] t[i].0) is Greater by { assert(c(l[i].0) is Greater); assert(t[i] == l[i]); }
        lemma_idx_unique(t, c, l.len() as int);
    }
}

pub broadcast group group_order {
    lemma_kcut_mono, lemma_qcut_mono, lemma_sorted_cat, lemma_idx_cat, lemma_ins_cat, lemma_rm_cat,
    lemma_get_cat, lemma_sorted_empty, lemma_idx_empty, lemma_cat_assoc, lemma_cat_len,
    lemma_lt_cat, lemma_gt_cat, lemma_lt_plus, lemma_gt_plus, lemma_sorted_plus, lemma_above_cat, lemma_below_cat,
    lemma_below_empty, lemma_above_empty,
}

// the value at c replaced
pub open spec fn m_upd<K, V>(s: Seq<(K, V)>, c: Cut<K>, v: V) -> Seq<(K, V)> {
    if has_key(s, c) { s.update(idx(s, c), (s[idx(s, c)].0, v)) } else { s }
}

pub proof fn lemma_upd_sorted<K: Ord, V>(s: Seq<(K, V)>, c: Cut<K>)
    requires sorted(s),
    ensures forall|v: V| sorted(#[trigger] m_upd(s, c, v)) && m_upd(s, c, v).len() == s.len(),
{
    reveal(sorted);
    lemma_idx(s, c);
    assert forall|v: V| sorted(#[trigger] m_upd(s, c, v)) && m_upd(s, c, v).len() == s.len() by {
        let t = m_upd(s, c, v);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies lt(#[trigger] t[i].0, #[trigger] t[j].0) by {
            assert(lt(s[i].0, s[j].0));
        }
    }
}

// a sorted sequence without its first or last entry
pub proof fn lemma_ends_sorted<K: Ord, V>(s: Seq<(K, V)>)
    requires sorted(s),
    ensures
        s.len() > 0 ==> sorted(s.skip(1)) && sorted(s.drop_last()) && s == seq![s[0]] + s.skip(1) && s == s.drop_last().push(s.last()),
{
    if s.len() > 0 {
        reveal(sorted);
        let (a, b) = (s.skip(1), s.drop_last());
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies lt(#[trigger] a[i].0, #[trigger] a[j].0) by {
            assert(lt(s[i + 1].0, s[j + 1].0));
        }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies lt(#[trigger] b[i].0, #[trigger] b[j].0) by {
            assert(lt(s[i].0, s[j].0));
        }
        assert(s =~= seq![s[0]] + a);
        assert(s =~= b.push(s.last()));
    }
}
