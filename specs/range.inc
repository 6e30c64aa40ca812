#raw
// ---------------------------------------------------------------------------
// Range bounds.  Assumed: `start_bound`, `end_bound` and `contains` of one
// RangeBounds value agree with each other and do not change between calls.
// ---------------------------------------------------------------------------
#[verifier::external_trait_specification]
pub trait ExRangeBounds<T: ?Sized> {
    type ExternalTraitSpecificationFor: RangeBounds<T>;
}

pub uninterp spec fn rlo<Q, R>(r: R) -> Bound<Q>;
pub uninterp spec fn rhi<Q, R>(r: R) -> Bound<Q>;

pub open spec fn bval<Q>(r: Bound<&Q>) -> Bound<Q> {
    match r {
        Bound::Included(q) => Bound::Included(*q),
        Bound::Excluded(q) => Bound::Excluded(*q),
        Bound::Unbounded => Bound::Unbounded,
    }
}

// the keys at or above a lower bound / at or below an upper bound
pub type Pred<K> = spec_fn(K) -> bool;

pub open spec fn in_lo<K, Q: Ord>(b: Bound<Q>) -> Pred<K> {
    |k: K| match b {
        Bound::Included(q) => !(q.cmp_spec(&bor::<K, Q>(k)) is Greater),
        Bound::Excluded(q) => q.cmp_spec(&bor::<K, Q>(k)) is Less,
        Bound::Unbounded => true,
    }
}

pub open spec fn in_hi<K, Q: Ord>(b: Bound<Q>) -> Pred<K> {
    |k: K| match b {
        Bound::Included(q) => !(q.cmp_spec(&bor::<K, Q>(k)) is Less),
        Bound::Excluded(q) => q.cmp_spec(&bor::<K, Q>(k)) is Greater,
        Bound::Unbounded => true,
    }
}

pub open spec fn q_in<Q: Ord>(lo: Bound<Q>, hi: Bound<Q>, q: Q) -> bool {
    &&& match lo {
        Bound::Included(b) => !(b.cmp_spec(&q) is Greater),
        Bound::Excluded(b) => b.cmp_spec(&q) is Less,
        Bound::Unbounded => true,
    }
    &&& match hi {
        Bound::Included(b) => !(b.cmp_spec(&q) is Less),
        Bound::Excluded(b) => b.cmp_spec(&q) is Greater,
        Bound::Unbounded => true,
    }
}

pub trait VRange<Q: Ord>: Sized {
    fn vstart(&self) -> (b: Bound<&Q>)
        ensures bval(b) == rlo::<Q, Self>(*self);
    fn vend(&self) -> (b: Bound<&Q>)
        ensures bval(b) == rhi::<Q, Self>(*self);
    fn vcontains(&self, q: &Q) -> (r: bool)
        ensures r == q_in(rlo::<Q, Self>(*self), rhi::<Q, Self>(*self), *q);
}

impl<Q: Ord, R: RangeBounds<Q>> VRange<Q> for R {
    #[verifier::external_body]
    fn vstart(&self) -> (b: Bound<&Q>) { self.start_bound() }
    #[verifier::external_body]
    fn vend(&self) -> (b: Bound<&Q>) { self.end_bound() }
    #[verifier::external_body]
    fn vcontains(&self, q: &Q) -> (r: bool) { self.contains(q) }
}

#[verifier::opaque]
pub open spec fn upward<K: Ord>(p: Pred<K>) -> bool {
    forall|x: K, y: K| #![trigger p(x), p(y)] lt(x, y) && p(x) ==> p(y)
}
#[verifier::opaque]
pub open spec fn downward<K: Ord>(p: Pred<K>) -> bool {
    forall|x: K, y: K| #![trigger p(x), p(y)] lt(x, y) && p(y) ==> p(x)
}

pub proof fn lemma_bounds_mono<K: Ord, Q: Ord>(b: Bound<Q>)
    requires lawful_q::<K, Q>(),
    ensures upward(in_lo::<K, Q>(b)), downward(in_hi::<K, Q>(b)),
{
    reveal(ord_laws);
    reveal(bor_laws);
    reveal(upward);
    reveal(downward);
    let (p, r) = (in_lo::<K, Q>(b), in_hi::<K, Q>(b));
    assert forall|x: K, y: K| #![trigger p(x), p(y)] lt(x, y) && p(x) implies p(y) by {
        let (bx, by) = (bor::<K, Q>(x), bor::<K, Q>(y));
        assert(bx.cmp_spec(&by) is Less);
        match b {
            Bound::Included(q) => { law_trans(q, bx, by); law_flip(q, by); law_flip(q, bx); }
            Bound::Excluded(q) => { law_trans(q, bx, by); law_flip(q, by); }
            Bound::Unbounded => {}
        }
    }
    assert forall|x: K, y: K| #![trigger r(x), r(y)] lt(x, y) && r(y) implies r(x) by {
        let (bx, by) = (bor::<K, Q>(x), bor::<K, Q>(y));
        assert(bx.cmp_spec(&by) is Less);
        match b {
            Bound::Included(q) => { law_trans(bx, by, q); law_flip(q, by); law_flip(q, bx); }
            Bound::Excluded(q) => { law_trans(bx, by, q); law_flip(q, by); law_flip(q, bx); }
            Bound::Unbounded => {}
        }
    }
}

// the entries whose keys satisfy p
#[verifier::opaque]
pub open spec fn sel<K, V>(s: Seq<(K, V)>, p: Pred<K>) -> Seq<(K, V)>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if p(s.last().0) { sel(s.drop_last(), p).push(s.last()) }
    else { sel(s.drop_last(), p) }
}

#[verifier::opaque]
pub open spec fn all_in<K, V>(s: Seq<(K, V)>, p: Pred<K>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i].0)
}
#[verifier::opaque]
pub open spec fn none_in<K, V>(s: Seq<(K, V)>, p: Pred<K>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i].0)
}

pub open spec fn neg<K>(p: Pred<K>) -> Pred<K> { |k: K| !p(k) }
pub open spec fn both<K>(p: Pred<K>, q: Pred<K>) -> Pred<K> { |k: K| p(k) && q(k) }

pub proof fn lemma_sel_plus<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, p: Pred<K>)
    ensures sel(a + b, p) == sel(a, p) + sel(b, p),
    decreases b.len()
{
    reveal(sel);
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(sel(a, p) + sel(b, p) =~= sel(a, p));
    } else {
        lemma_sel_plus(a, b.drop_last(), p);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        if p(b.last().0) {
            assert(sel(a, p) + sel(b.drop_last(), p).push(b.last()) =~= (sel(a, p) + sel(b.drop_last(), p)).push(b.last()));
        }
    }
}

pub broadcast proof fn lemma_sel_one<K, V>(e: (K, V), p: Pred<K>)
    ensures #[trigger] sel(seq![e], p) == (if p(e.0) { seq![e] } else { Seq::empty() }),
{
    reveal(sel);
    let s = seq![e];
    assert(s.drop_last() =~= Seq::<(K, V)>::empty());
    assert(sel(s.drop_last(), p) == Seq::<(K, V)>::empty());
    assert(Seq::<(K, V)>::empty().push(e) =~= s);
}

pub proof fn lemma_sel_cat<K, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, p: Pred<K>)
    ensures
        sel(cat(l, e, r), p) == sel(l, p) + (if p(e.0) { seq![e] } else { Seq::empty() }) + sel(r, p),
        all_in(cat(l, e, r), p) == (all_in(l, p) && p(e.0) && all_in(r, p)),
{
    lemma_sel_plus(l + seq![e], r, p);
    lemma_sel_plus(l, seq![e], p);
    lemma_sel_one(e, p);
    lemma_all_in_plus(l + seq![e], r, p);
    lemma_all_in_plus(l, seq![e], p);
    assert(all_in(seq![e], p) == p(e.0)) by { reveal(all_in); if all_in(seq![e], p) { assert(p(seq![e][0].0)); } }
}

pub proof fn lemma_all_in_plus<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, p: Pred<K>)
    ensures all_in(a + b, p) == (all_in(a, p) && all_in(b, p)),
{
    reveal(all_in);
    let s = a + b;
    assert(forall|i: int| 0 <= i < a.len() ==> s[i] == a[i]);
    assert(forall|i: int| 0 <= i < b.len() ==> s[i + a.len()] == b[i]);
    if all_in(s, p) {
        assert forall|i: int| 0 <= i < a.len() implies p(#[trigger] a[i].0) by { assert(p(s[i].0)); }
        assert forall|i: int| 0 <= i < b.len() implies p(#[trigger] b[i].0) by { assert(p(s[i + a.len()].0)); }
    }
    if all_in(a, p) && all_in(b, p) {
        assert forall|i: int| 0 <= i < s.len() implies p(#[trigger] s[i].0) by {
            if i >= a.len() { assert(s[i] == b[i - a.len()]); }
        }
    }
}

pub broadcast proof fn lemma_sel_all<K, V>(s: Seq<(K, V)>, p: Pred<K>)
    requires all_in(s, p),
    ensures #[trigger] sel(s, p) == s,
    decreases s.len()
{
    reveal(sel);
    if s.len() > 0 {
        assert(all_in(s.drop_last(), p) && p(s.last().0)) by {
            reveal(all_in);
            assert forall|i: int| 0 <= i < s.drop_last().len() implies p(#[trigger] s.drop_last()[i].0) by { assert(p(s[i].0)); }
        }
        lemma_sel_all(s.drop_last(), p);
        assert(s.drop_last().push(s.last()) =~= s);
    } else {
        assert(s =~= Seq::empty());
    }
}

pub broadcast proof fn lemma_sel_none<K, V>(s: Seq<(K, V)>, p: Pred<K>)
    requires none_in(s, p),
    ensures #[trigger] sel(s, p) == Seq::<(K, V)>::empty(),
    decreases s.len()
{
    reveal(sel);
    if s.len() > 0 {
        assert(none_in(s.drop_last(), p) && !p(s.last().0)) by {
            reveal(none_in);
            assert forall|i: int| 0 <= i < s.drop_last().len() implies !p(#[trigger] s.drop_last()[i].0) by { assert(!p(s[i].0)); }
        }
        lemma_sel_none(s.drop_last(), p);
    }
}

pub proof fn lemma_sel_len<K, V>(s: Seq<(K, V)>, p: Pred<K>)
    ensures sel(s, p).len() <= s.len(),
    decreases s.len()
{
    reveal(sel);
    if s.len() > 0 { lemma_sel_len(s.drop_last(), p); }
}

pub broadcast proof fn lemma_all_in_empty<K, V>(s: Seq<(K, V)>, p: Pred<K>)
    requires s.len() == 0,
    ensures #[trigger] all_in(s, p), sel(s, p) == Seq::<(K, V)>::empty(),
{
    reveal(all_in);
    reveal(sel);
}

// what one node's key says about its subtrees
pub proof fn lemma_cut_range<K: Ord, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, lo: Pred<K>, hi: Pred<K>)
    requires sorted(cat(l, e, r)), lawful::<K>(), upward(lo), downward(hi),
    ensures
        lo(e.0) ==> all_in(r, lo),
        hi(e.0) ==> all_in(l, hi),
        !lo(e.0) ==> none_in(l, lo),
        !hi(e.0) ==> none_in(r, hi),
        sorted(l), sorted(r), all_lt(l, e.0), all_gt(r, e.0),
{
    lemma_sorted_cat(l, e, r);
    reveal(all_lt);
    reveal(all_gt);
    reveal(all_in);
    reveal(none_in);
    reveal(upward);
    reveal(downward);
    let _ = (lo(e.0), hi(e.0));
}

pub proof fn lemma_none_both<K, V>(s: Seq<(K, V)>, p: Pred<K>, q: Pred<K>)
    ensures
        none_in(s, p) || none_in(s, q) ==> none_in(s, both(p, q)),
        all_in(s, p) && all_in(s, q) ==> all_in(s, both(p, q)),
        all_in(s, both(p, q)) ==> all_in(s, p) && all_in(s, q),
{
    reveal(none_in);
    reveal(all_in);
}

// a bound at or past a key / at or before it
pub open spec fn past_it<K, Q: Ord>(b: Bound<Q>, k: K) -> bool {
    match b {
        Bound::Included(q) => !(q.cmp_spec(&bor::<K, Q>(k)) is Less),
        Bound::Excluded(q) => !(q.cmp_spec(&bor::<K, Q>(k)) is Less),
        Bound::Unbounded => false,
    }
}
pub open spec fn before_it<K, Q: Ord>(b: Bound<Q>, k: K) -> bool {
    match b {
        Bound::Included(q) => !(q.cmp_spec(&bor::<K, Q>(k)) is Greater),
        Bound::Excluded(q) => !(q.cmp_spec(&bor::<K, Q>(k)) is Greater),
        Bound::Unbounded => false,
    }
}
// a bound at or past one node's key empties one side
pub proof fn lemma_cut_bound<K: Ord, V, Q: Ord>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, b: Bound<Q>)
    requires all_lt(l, e.0), all_gt(r, e.0), lawful_q::<K, Q>(),
    ensures
        past_it::<K, Q>(b, e.0)
            ==> none_in(l, in_lo::<K, Q>(b)),
        before_it::<K, Q>(b, e.0)
            ==> none_in(r, in_hi::<K, Q>(b)),
{
    reveal(none_in);
    reveal(all_lt);
    reveal(all_gt);
    if !(b is Unbounded) {
        let q = match b { Bound::Included(q) => q, Bound::Excluded(q) => q, Bound::Unbounded => arbitrary() };
        let be = bor::<K, Q>(e.0);
        if !(q.cmp_spec(&be) is Less) {
            assert forall|i: int| 0 <= i < l.len() implies !in_lo::<K, Q>(b)(#[trigger] l[i].0) by {
                reveal(bor_laws);
                let x = bor::<K, Q>(l[i].0);
                assert(x.cmp_spec(&be) is Less);
                law_flip(x, be); law_flip(q, be); law_trans(q, be, x); law_flip(q, x);
            }
        }
        if !(q.cmp_spec(&be) is Greater) {
            assert forall|i: int| 0 <= i < r.len() implies !in_hi::<K, Q>(b)(#[trigger] r[i].0) by {
                reveal(bor_laws);
                let x = bor::<K, Q>(r[i].0);
                assert(be.cmp_spec(&x) is Less);
                law_flip(x, be); law_flip(q, be); law_trans(q, be, x); law_flip(q, x);
            }
        }
    }
}
