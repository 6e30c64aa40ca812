#raw
// ---------------------------------------------------------------------------
// Range iterators of the B-tree
// ---------------------------------------------------------------------------
#prop C08 C09
#item struct IsIn
#item enum BdOrd
#raw
// how a bound compares with a key
spec fn bq<Q>(b: Bound<Q>) -> Q { match b { Bound::Included(q) => q, Bound::Excluded(q) => q, Bound::Unbounded => arbitrary() } }
spec fn bcmp<K, Q: Ord>(b: Bound<Q>, k: K) -> Ordering { bq(b).cmp_spec(&bor::<K, Q>(k)) }
#fn cmp_bd -> r
    requires lawful::<Q>(),
    ensures
        match r {
            BdOrd::Unbounded => bd is Unbounded,
            BdOrd::Less => !(bd is Unbounded) && bq(bval(bd)).cmp_spec(k) is Less,
            BdOrd::Equal(x) => !(bd is Unbounded) && bq(bval(bd)).cmp_spec(k) is Equal && x.0 == (bd is Included),
            BdOrd::Greater => !(bd is Unbounded) && bq(bval(bd)).cmp_spec(k) is Greater,
        },
#item struct RangeEdges
#raw
// slice.iter().enumerate().peekable(): the entries from `at()` on, with their positions
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VPeekEnum<'a, T> { i: std::iter::Peekable<std::iter::Enumerate<std::slice::Iter<'a, T>>> }
impl<'a, T> VPeekEnum<'a, T> {
    uninterp spec fn src(&self) -> Seq<T>;
    uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    fn of(x: &'a Vec<T>) -> (r: Self)
        ensures r.src() == x@, r.at() == 0, x@.len() <= usize::MAX,
    { VPeekEnum { i: x.iter().enumerate().peekable() } }
    #[verifier::external_body]
    fn peek(&self) -> (r: Option<&(usize, &'a T)>)
        ensures
            match r {
                Some(p) => 0 <= self.at() < self.src().len() && p.0 == self.at() && *p.1 == self.src()[self.at()],
                None => self.at() >= self.src().len(),
            },
    { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        ensures
            final(self).src() == old(self).src(),
            match r {
                Some(p) => 0 <= old(self).at() < old(self).src().len() && p.0 == old(self).at() && *p.1 == old(self).src()[old(self).at()]
                    && final(self).at() == old(self).at() + 1,
                None => old(self).at() >= old(self).src().len() && final(self).at() == old(self).at(),
            },
    { self.i.next() }
}
// neither inverted, nor two exclusive bounds at one key (std's BTreeMap panics there as well)
spec fn bfit<Q: Ord>(lo: Bound<Q>, hi: Bound<Q>) -> bool {
    lo is Unbounded || hi is Unbounded || {
        let c = bq(hi).cmp_spec(&bq(lo));
        c is Greater || c is Equal && !(lo is Excluded && hi is Excluded)
    }
}
// the entry at i compares equal to a bound
spec fn beq<K, V, Q: Ord>(b: Bound<Q>, es: Seq<(K, V)>, i: int) -> bool {
    0 <= i < es.len() && !(b is Unbounded) && bcmp::<K, Q>(b, es[i].0) is Equal
}
spec fn lf_edge<K, V, Q: Ord>(es: Seq<(K, V)>, b: Bound<Q>, e: RangeEdges) -> bool {
    if e.left_needs_pruning {
        &&& e.lb_elems == e.lb_kids
        &&& 0 < e.lb_elems ==> !in_lo::<K, Q>(b)(es[e.lb_elems - 1].0)
        &&& e.lb_elems < es.len() ==> in_lo::<K, Q>(b)(es[e.lb_elems as int].0)
    } else {
        ||| b is Unbounded && e.lb_elems == 0 && e.lb_kids == 0
        ||| beq(b, es, e.lb_kids - 1) && e.lb_elems == (if b is Included { e.lb_kids - 1 } else { e.lb_kids as int })
    }
}
spec fn rt_edge<K, V, Q: Ord>(es: Seq<(K, V)>, b: Bound<Q>, e: RangeEdges) -> bool {
    if e.right_needs_pruning {
        &&& e.ub_kids == e.ub_elems + 1
        &&& 0 < e.ub_elems ==> in_hi::<K, Q>(b)(es[e.ub_elems - 1].0)
        &&& e.ub_elems < es.len() ==> !in_hi::<K, Q>(b)(es[e.ub_elems as int].0)
    } else {
        ||| b is Unbounded && e.ub_elems == es.len() && e.ub_kids == es.len() + 1
        ||| beq(b, es, e.ub_kids - 1) && e.ub_elems == (if b is Included { e.ub_kids as int } else { e.ub_kids - 1 })
    }
}
spec fn edges_ok<K, V, Q: Ord>(es: Seq<(K, V)>, lo: Bound<Q>, hi: Bound<Q>, e: RangeEdges) -> bool {
    &&& e.lb_elems <= e.ub_elems <= es.len()
    &&& e.lb_kids <= e.ub_kids <= es.len() + 1
    &&& e.left_needs_pruning || e.right_needs_pruning ==> e.lb_kids < e.ub_kids
    &&& lf_edge(es, lo, e)
    &&& rt_edge(es, hi, e)
}
// both bounds against one key
proof fn lemma_two_bounds<K: Ord, Q: Ord>(lo: Bound<Q>, hi: Bound<Q>, k: K)
    requires lawful_q::<K, Q>(), bfit(lo, hi), !(lo is Unbounded),
    ensures
        bcmp::<K, Q>(lo, k) is Greater ==> in_hi::<K, Q>(hi)(k) && !in_lo::<K, Q>(lo)(k),
        bcmp::<K, Q>(lo, k) is Less ==> in_lo::<K, Q>(lo)(k),
        bcmp::<K, Q>(lo, k) is Equal && !(hi is Unbounded) ==> !(bcmp::<K, Q>(hi, k) is Less),
        bcmp::<K, Q>(lo, k) is Equal && !(hi is Unbounded) && bcmp::<K, Q>(hi, k) is Equal ==> !(lo is Excluded && hi is Excluded),
{
    reveal(ord_laws);
    reveal(bor_laws);
    if !(hi is Unbounded) {
        let (a, b, x) = (bq(lo), bq(hi), bor::<K, Q>(k));
        law_flip(a, b); law_flip(a, x); law_flip(b, x);
        law_trans(x, a, b); law_trans(b, a, x); law_trans(a, b, x); law_trans(b, x, a); law_trans(a, x, b); law_trans(x, b, a);
    }
}
#fn find_range_edges -> r +where=K:Ord
    requires lawful_q::<K, Q>(), bfit(bval(lb), bval(ub)), okn::<N>(), an(*n).elems.len() < usize::MAX,
    ensures edges_ok(an(*n).elems@, bval(lb), bval(ub), r),
@sub n\s*\.elems\s*\.iter\(\)\s*\.enumerate\(\)\s*\.peekable\(\) => VPeekEnum::of(&n.elems)
@sub for \((\w+), \((\w+), _\)\) in elems\b => while let Some((\1, (\2, _))) = elems.next()
@begin
    let ghost es = an(*n).elems@;
    let ghost (lo, hi) = (bval(lb), bval(ub));
@loop 0
    invariant_except_break
        res.lb_elems == es.len(), res.lb_kids == es.len(), res.left_needs_pruning,
        elems.at() == 0 || !(lo is Unbounded) && bcmp::<K, Q>(lo, es[elems.at() - 1].0) is Greater
            && in_hi::<K, Q>(hi)(es[elems.at() - 1].0) && !in_lo::<K, Q>(lo)(es[elems.at() - 1].0),
    invariant
        lawful_q::<K, Q>(), bfit(lo, hi), lo == bval(lb), hi == bval(ub), es == an(*n).elems@, elems.src() == es,
        es.len() < usize::MAX,
        0 <= elems.at() <= es.len(),
        res.ub_elems == es.len(), res.ub_kids == es.len() + 1, res.right_needs_pruning,
    ensures
        lf_edge(es, lo, res),
        res.left_needs_pruning ==> res.lb_elems == elems.at(),
        !res.left_needs_pruning ==> lo is Unbounded && elems.at() == 0 || res.lb_kids == elems.at() + 1,
        res.left_needs_pruning && 0 < elems.at() ==> in_hi::<K, Q>(hi)(es[elems.at() - 1].0),
    decreases es.len() - elems.at(),
@body 0
    proof { if !(lo is Unbounded) { lemma_two_bounds::<K, Q>(lo, hi, es[elems.at()].0); } }
@past 0
    let ghost a0 = elems.at();
    proof { if !(lo is Unbounded) && a0 < es.len() { lemma_two_bounds::<K, Q>(lo, hi, es[a0].0); } }
@loop 1
    invariant_except_break
        res.ub_elems == es.len(), res.ub_kids == es.len() + 1, res.right_needs_pruning,
        elems.at() == a0 || !(hi is Unbounded) && bcmp::<K, Q>(hi, es[elems.at() - 1].0) is Greater,
    invariant
        lawful_q::<K, Q>(), bfit(lo, hi), lo == bval(lb), hi == bval(ub), es == an(*n).elems@, elems.src() == es,
        es.len() < usize::MAX,
        a0 <= elems.at() <= es.len(),
        lf_edge(es, lo, res),
        res.left_needs_pruning ==> res.lb_elems == a0,
        !res.left_needs_pruning ==> lo is Unbounded && a0 == 0 || res.lb_kids == a0 + 1,
        res.left_needs_pruning && 0 < a0 ==> in_hi::<K, Q>(hi)(es[a0 - 1].0),
        !(lo is Unbounded) && a0 < es.len() && bcmp::<K, Q>(lo, es[a0].0) is Equal && !(hi is Unbounded) ==>
            !(bcmp::<K, Q>(hi, es[a0].0) is Less) && (bcmp::<K, Q>(hi, es[a0].0) is Equal ==> !(lo is Excluded && hi is Excluded)),
    ensures edges_ok(es, lo, hi, res),
    decreases es.len() - elems.at(),
#raw
// ---------------------------------------------------------------------------
// What the edges leave of a node
// ---------------------------------------------------------------------------
spec fn sub<E>(ks: Seq<Seq<E>>, a: int, b: int) -> Seq<Seq<E>> { if ks.len() == 0 { Seq::empty() } else { ks.subrange(a, b) } }
proof fn lemma_cancel<E>(a: Seq<E>, b: Seq<E>, c: Seq<E>)
    requires a + b == a + c,
    ensures b == c,
{
    assert((a + b).skip(a.len() as int) =~= b);
    assert((a + c).skip(a.len() as int) =~= c);
}
proof fn lemma_alt_span<E>(ks: Seq<Seq<E>>, es: Seq<E>, a: int, b: int)
    requires ks.len() == es.len() + 1, 0 <= a <= b <= es.len(),
    ensures
        pre(ks, es, a) + alt(true, ks.subrange(a, b + 1), es.subrange(a, b)) == pre(ks, es, b) + kat(ks, b),
        pre(ks, es, a) + alt(true, ks.subrange(a, b), es.subrange(a, b)) == pre(ks, es, b),
    decreases b
{
    let (kk, ee) = (ks.subrange(a, b + 1), es.subrange(a, b));
    if a == b {
        lemma_alt_leaf(false, kk.skip(1), ee);
        assert(alt(true, kk, ee) =~= ks[a]);
        lemma_alt_leaf(true, ks.subrange(a, b), ee);
        assert(pre(ks, es, a) + alt(true, ks.subrange(a, b), ee) =~= pre(ks, es, b));
    } else {
        lemma_alt_span(ks, es, a, b - 1);
        lemma_alt_back(true, true, kk, ee);
        assert(kk.drop_last() =~= ks.subrange(a, b));
        lemma_alt_back(true, false, kk.drop_last(), ee);
        assert(ee.drop_last() =~= es.subrange(a, b - 1));
        lemma_pre_suf(ks, es, b);
        assert(kk.last() == kat(ks, b));
        let x = alt(true, ks.subrange(a, b), es.subrange(a, b - 1));
        assert(pre(ks, es, a) + (x + seq![es[b - 1]]) =~= (pre(ks, es, a) + x) + seq![es[b - 1]]);
        assert(pre(ks, es, a) + (x + seq![es[b - 1]] + ks[b]) =~= (pre(ks, es, a) + x) + seq![es[b - 1]] + ks[b]);
    }
}
spec fn smid<E>(ks: Seq<Seq<E>>, es: Seq<E>, a: int, b: int, fl: bool, fr: bool) -> Seq<E> {
    alt(fl, sub(ks, if fl { a } else { a + 1 }, if fr { b + 1 } else { b }), es.subrange(a, b))
}
spec fn slf<E>(ks: Seq<Seq<E>>, es: Seq<E>, a: int, fl: bool) -> Seq<E> { if fl { pre(ks, es, a) } else { pre(ks, es, a) + kat(ks, a) } }
spec fn sup<E>(ks: Seq<Seq<E>>, es: Seq<E>, b: int, fr: bool) -> Seq<E> { if fr { pre(ks, es, b) + kat(ks, b) } else { pre(ks, es, b) } }
spec fn srt<E>(ks: Seq<Seq<E>>, es: Seq<E>, b: int, fr: bool) -> Seq<E> { if fr { suf(ks, es, b) } else { kat(ks, b) + suf(ks, es, b) } }
spec fn sfrom<E>(ks: Seq<Seq<E>>, es: Seq<E>, a: int, fl: bool) -> Seq<E> { if fl { kat(ks, a) + suf(ks, es, a) } else { suf(ks, es, a) } }
proof fn lemma_span_leaf<E>(ks: Seq<Seq<E>>, es: Seq<E>, a: int, b: int, fl: bool, fr: bool)
    requires ks.len() == 0, 0 <= a <= b <= es.len(),
    ensures slf(ks, es, a, fl) + smid(ks, es, a, b, fl, fr) == sup(ks, es, b, fr),
{
    assert(ks =~= Seq::<Seq<E>>::empty());
    lemma_alt_leaf(fl, sub(ks, 0, 0), es.subrange(a, b));
    lemma_il(ks, es, a);
    lemma_il(ks, es, b);
    lemma_il_leaf(es);
    lemma_suf_leaf(es, a);
    lemma_suf_leaf(es, b);
    let (p, q) = (pre(ks, es, a), pre(ks, es, b));
    let o = Seq::<E>::empty();
    assert(p + o =~= p && q + o =~= q);
    assert(p =~= (p + suf(ks, es, a)).take(a));
    assert(q =~= (q + suf(ks, es, b)).take(b));
    assert(es.take(a) + es.subrange(a, b) =~= es.take(b));
}
proof fn lemma_span_branch<E>(ks: Seq<Seq<E>>, es: Seq<E>, a: int, b: int, fl: bool, fr: bool)
    requires ks.len() == es.len() + 1, 0 <= a <= b <= es.len(), a == b ==> fl || fr,
    ensures slf(ks, es, a, fl) + smid(ks, es, a, b, fl, fr) == sup(ks, es, b, fr),
{
    let k = sub(ks, if fl { a } else { a + 1 }, if fr { b + 1 } else { b });
    let e = es.subrange(a, b);
    let mid = smid(ks, es, a, b, fl, fr);
    lemma_alt_span(ks, es, a, b);
    if !fl {
        let k1 = ks.subrange(a, if fr { b + 1 } else { b });
        assert(k1.len() > 0 && k1[0] == ks[a]);
        assert(k1.skip(1) =~= k);
        assert(alt(true, k1, e) == ks[a] + mid);
        lemma_assoc(pre(ks, es, a), ks[a], mid);
    }
}
proof fn lemma_span<E>(ks: Seq<Seq<E>>, es: Seq<E>, a: int, b: int, fl: bool, fr: bool)
    requires
        ks.len() == 0 || ks.len() == es.len() + 1, 0 <= a <= b <= es.len(),
        ks.len() > 0 && a == b ==> fl || fr,
    ensures
        slf(ks, es, a, fl) + smid(ks, es, a, b, fl, fr) == sup(ks, es, b, fr),
        smid(ks, es, a, b, fl, fr) + srt(ks, es, b, fr) == sfrom(ks, es, a, fl),
{
    if ks.len() == 0 { lemma_span_leaf(ks, es, a, b, fl, fr); } else { lemma_span_branch(ks, es, a, b, fl, fr); }
    lemma_il(ks, es, a);
    lemma_il(ks, es, b);
    let (lf, mid, rt) = (slf(ks, es, a, fl), smid(ks, es, a, b, fl, fr), srt(ks, es, b, fr));
    lemma_assoc(lf, mid, rt);
    lemma_assoc(pre(ks, es, b), kat(ks, b), suf(ks, es, b));
    lemma_assoc(pre(ks, es, a), kat(ks, a), suf(ks, es, a));
    lemma_cancel(lf, mid + rt, sfrom(ks, es, a, fl));
}
spec fn efl(e: RangeEdges) -> bool { !e.left_needs_pruning && e.lb_elems == e.lb_kids }
spec fn efr(e: RangeEdges) -> bool { !e.right_needs_pruning && e.ub_elems < e.ub_kids }
// one child, to be cut on both sides
spec fn eone<E>(ks: Seq<Seq<E>>, e: RangeEdges) -> bool {
    e.left_needs_pruning && e.right_needs_pruning && ks.len() > 0 && e.ub_kids - e.lb_kids == 1
}
// the child cut on the left, on the right; what is taken whole; what is left out
spec fn ekl<E>(ks: Seq<Seq<E>>, e: RangeEdges) -> Seq<E> { if e.left_needs_pruning { kat(ks, e.lb_kids as int) } else { Seq::empty() } }
spec fn ekr<E>(ks: Seq<Seq<E>>, e: RangeEdges) -> Seq<E> { if e.right_needs_pruning && !eone(ks, e) { kat(ks, e.ub_kids - 1) } else { Seq::empty() } }
spec fn emd<E>(ks: Seq<Seq<E>>, es: Seq<E>, e: RangeEdges) -> Seq<E> {
    if eone(ks, e) { Seq::empty() }
    else { alt(efl(e), sub(ks, e.lb_kids + b2i(e.left_needs_pruning), e.ub_kids - b2i(e.right_needs_pruning)), es.subrange(e.lb_elems as int, e.ub_elems as int)) }
}
spec fn ebf<E>(ks: Seq<Seq<E>>, es: Seq<E>, e: RangeEdges) -> Seq<E> {
    if e.left_needs_pruning || efl(e) { pre(ks, es, e.lb_elems as int) } else { pre(ks, es, e.lb_elems as int) + kat(ks, e.lb_elems as int) }
}
spec fn eaf<E>(ks: Seq<Seq<E>>, es: Seq<E>, e: RangeEdges) -> Seq<E> {
    if e.right_needs_pruning || efr(e) { suf(ks, es, e.ub_elems as int) } else { kat(ks, e.ub_elems as int) + suf(ks, es, e.ub_elems as int) }
}
spec fn egeo(m: int, e: RangeEdges) -> bool {
    &&& e.lb_elems <= e.ub_elems <= m
    &&& e.lb_kids == e.lb_elems || !e.left_needs_pruning && e.lb_kids == e.lb_elems + 1
    &&& e.ub_kids == e.ub_elems + 1 || !e.right_needs_pruning && e.ub_kids == e.ub_elems
    &&& e.lb_kids <= e.ub_kids
    &&& e.left_needs_pruning || e.right_needs_pruning ==> e.lb_kids < e.ub_kids
}
proof fn lemma_edge_parts<E>(ks: Seq<Seq<E>>, es: Seq<E>, e: RangeEdges)
    requires ks.len() == 0 || ks.len() == es.len() + 1, egeo(es.len() as int, e),
    ensures
        il(ks, es) == ebf(ks, es, e) + ekl(ks, e) + emd(ks, es, e) + ekr(ks, e) + eaf(ks, es, e),
        // what lies below, and what lies above, the part taken whole
        !eone(ks, e) ==> {
            &&& ebf(ks, es, e) + (ekl(ks, e) + emd(ks, es, e))
                    == (if e.right_needs_pruning || !efr(e) { pre(ks, es, e.ub_elems as int) } else { pre(ks, es, e.ub_elems as int) + kat(ks, e.ub_elems as int) })
            &&& (emd(ks, es, e) + ekr(ks, e)) + eaf(ks, es, e)
                    == (if e.left_needs_pruning || !efl(e) { suf(ks, es, e.lb_elems as int) } else { kat(ks, e.lb_elems as int) + suf(ks, es, e.lb_elems as int) })
        },
{
    let (a, b) = (e.lb_elems as int, e.ub_elems as int);
    let (fl, fr) = (efl(e), efr(e));
    lemma_il(ks, es, a);
    lemma_il(ks, es, b);
    let (bf, kl, md, kr, af) = (ebf(ks, es, e), ekl(ks, e), emd(ks, es, e), ekr(ks, e), eaf(ks, es, e));
    if eone(ks, e) {
        assert(bf + kl + md + kr + af =~= pre(ks, es, a) + kat(ks, a) + suf(ks, es, a));
    } else {
        lemma_span(ks, es, a, b, fl, fr);
        assert(bf + kl =~= (if fl { pre(ks, es, a) } else { pre(ks, es, a) + kat(ks, a) }));
        assert(bf + (kl + md) =~= bf + kl + md);
        assert(kr + af =~= (if fr { suf(ks, es, b) } else { kat(ks, b) + suf(ks, es, b) }));
        assert((md + kr) + af =~= md + (kr + af));
        assert(bf + kl + md + kr + af =~= (bf + kl + md) + (kr + af));
        assert(bf + kl + md + kr + af =~= pre(ks, es, b) + kat(ks, b) + suf(ks, es, b));
    }
}
// keys around an entry that a bound hits
proof fn lemma_bound_hits<K: Ord, V, Q: Ord>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, b: Bound<Q>)
    requires sorted(cat(l, e, r)), lawful_q::<K, Q>(), !(b is Unbounded), bcmp::<K, Q>(b, e.0) is Equal,
    ensures
        none_in(l, in_lo::<K, Q>(b)), all_in(r, in_lo::<K, Q>(b)),
        all_in(l, in_hi::<K, Q>(b)), none_in(r, in_hi::<K, Q>(b)),
        in_lo::<K, Q>(b)(e.0) == (b is Included), in_hi::<K, Q>(b)(e.0) == (b is Included),
{
    lemma_sorted_cat(l, e, r);
    reveal(all_lt);
    reveal(all_gt);
    reveal(all_in);
    reveal(none_in);
    let q = bq(b);
    let be = bor::<K, Q>(e.0);
    assert forall|i: int| 0 <= i < l.len() implies !in_lo::<K, Q>(b)(#[trigger] l[i].0) && in_hi::<K, Q>(b)(l[i].0) by {
        reveal(bor_laws);
        reveal(ord_laws);
        let x = bor::<K, Q>(l[i].0);
        assert(x.cmp_spec(&be) is Less);
        law_flip(x, be); law_flip(q, be); law_trans(q, be, x); law_trans(x, be, q); law_flip(q, x);
    }
    assert forall|i: int| 0 <= i < r.len() implies in_lo::<K, Q>(b)(#[trigger] r[i].0) && !in_hi::<K, Q>(b)(r[i].0) by {
        reveal(bor_laws);
        reveal(ord_laws);
        let x = bor::<K, Q>(r[i].0);
        assert(be.cmp_spec(&x) is Less);
        law_flip(x, be); law_flip(q, be); law_trans(q, be, x); law_trans(x, be, q); law_flip(q, x);
    }
}
proof fn lemma_cut_at<E>(ks: Seq<Seq<E>>, es: Seq<E>, i: int)
    requires 0 <= i < es.len(),
    ensures
        il(ks, es) == (pre(ks, es, i) + kat(ks, i)) + seq![es[i]] + (kat(ks, i + 1) + suf(ks, es, i + 1)),
        pre(ks, es, i + 1) == (pre(ks, es, i) + kat(ks, i)) + seq![es[i]],
        suf(ks, es, i) == seq![es[i]] + (kat(ks, i + 1) + suf(ks, es, i + 1)),
{
    lemma_il(ks, es, i);
    lemma_pre_suf(ks, es, i);
    lemma_pre_suf(ks, es, i + 1);
    lemma_assoc(seq![es[i]], kat(ks, i + 1), suf(ks, es, i + 1));
    lemma_assoc(pre(ks, es, i) + kat(ks, i), seq![es[i]], kat(ks, i + 1) + suf(ks, es, i + 1));
}
proof fn lemma_none_in_plus<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, p: Pred<K>)
    ensures none_in(a + b, p) == (none_in(a, p) && none_in(b, p)),
{
    reveal(none_in);
    let s = a + b;
    assert(forall|i: int| 0 <= i < a.len() ==> s[i] == a[i]);
    assert(forall|i: int| 0 <= i < b.len() ==> s[i + a.len()] == b[i]);
    if none_in(s, p) {
        assert forall|i: int| 0 <= i < a.len() implies !p(#[trigger] a[i].0) by { assert(!p(s[i].0)); }
        assert forall|i: int| 0 <= i < b.len() implies !p(#[trigger] b[i].0) by { assert(!p(s[i + a.len()].0)); }
    }
    if none_in(a, p) && none_in(b, p) {
        assert forall|i: int| 0 <= i < s.len() implies !p(#[trigger] s[i].0) by {
            if i >= a.len() { assert(s[i] == b[i - a.len()]); }
        }
    }
}
proof fn lemma_in_one<K, V>(e: (K, V), p: Pred<K>)
    ensures all_in(seq![e], p) == p(e.0), none_in(seq![e], p) == !p(e.0),
{
    reveal(all_in);
    reveal(none_in);
    if all_in(seq![e], p) { assert(p(seq![e][0].0)); }
    if none_in(seq![e], p) { assert(!p(seq![e][0].0)); }
}
// an entry at which a predicate on keys holds (does not hold), and its neighbourhood
proof fn lemma_cut_pred<K: Ord, V>(ks: Seq<Seq<(K, V)>>, es: Seq<(K, V)>, i: int, lo: Pred<K>, hi: Pred<K>)
    requires sorted(il(ks, es)), lawful::<K>(), upward(lo), downward(hi), 0 <= i < es.len(),
    ensures
        lo(es[i].0) ==> all_in(suf(ks, es, i), lo),
        !lo(es[i].0) ==> none_in(pre(ks, es, i + 1), lo),
        hi(es[i].0) ==> all_in(pre(ks, es, i + 1), hi),
        !hi(es[i].0) ==> none_in(suf(ks, es, i), hi),
{
    lemma_cut_at(ks, es, i);
    let (l, e, r) = (pre(ks, es, i) + kat(ks, i), es[i], kat(ks, i + 1) + suf(ks, es, i + 1));
    assert(il(ks, es) == cat(l, e, r));
    lemma_cut_range(l, e, r, lo, hi);
    lemma_in_one(e, lo); lemma_in_one(e, hi);
    lemma_all_in_plus(seq![e], r, lo);
    lemma_none_in_plus(l, seq![e], lo);
    lemma_all_in_plus(l, seq![e], hi);
    lemma_none_in_plus(seq![e], r, hi);
}
proof fn lemma_nothing<K, V>(s: Seq<(K, V)>, p: Pred<K>)
    requires s.len() == 0,
    ensures all_in(s, p), none_in(s, p),
{
    reveal(all_in);
    reveal(none_in);
}
proof fn lemma_lf_edge<K: Ord, V, Q: Ord>(ks: Seq<Seq<(K, V)>>, es: Seq<(K, V)>, b: Bound<Q>, e: RangeEdges)
    requires sorted(il(ks, es)), lawful_q::<K, Q>(), lf_edge(es, b, e), egeo(es.len() as int, e),
    ensures
        none_in(ebf(ks, es, e), in_lo::<K, Q>(b)),
        all_in(if e.left_needs_pruning || !efl(e) { suf(ks, es, e.lb_elems as int) } else { kat(ks, e.lb_elems as int) + suf(ks, es, e.lb_elems as int) }, in_lo::<K, Q>(b)),
{
    let lo = in_lo::<K, Q>(b);
    let hi = in_hi::<K, Q>(Bound::Unbounded);
    let a = e.lb_elems as int;
    lemma_bounds_mono::<K, Q>(b);
    lemma_bounds_mono::<K, Q>(Bound::Unbounded);
    if e.left_needs_pruning {
        lemma_pre_suf(ks, es, a);
        if a > 0 { lemma_cut_pred(ks, es, a - 1, lo, hi); } else { lemma_nothing(pre(ks, es, a), lo); }
        if a < es.len() { lemma_cut_pred(ks, es, a, lo, hi); } else { lemma_nothing(suf(ks, es, a), lo); }
    } else if b is Unbounded {
        lemma_pre_suf(ks, es, a);
        lemma_nothing(pre(ks, es, a), lo);
        assert(all_in(kat(ks, a) + suf(ks, es, a), lo)) by { reveal(all_in); }
    } else {
        let i = e.lb_kids - 1;
        lemma_cut_at(ks, es, i);
        let (l, x, r) = (pre(ks, es, i) + kat(ks, i), es[i], kat(ks, i + 1) + suf(ks, es, i + 1));
        assert(il(ks, es) == cat(l, x, r));
        lemma_bound_hits(l, x, r, b);
        lemma_in_one(x, lo);
        lemma_all_in_plus(seq![x], r, lo);
        lemma_none_in_plus(l, seq![x], lo);
    }
}
proof fn lemma_rt_edge<K: Ord, V, Q: Ord>(ks: Seq<Seq<(K, V)>>, es: Seq<(K, V)>, b: Bound<Q>, e: RangeEdges)
    requires sorted(il(ks, es)), lawful_q::<K, Q>(), rt_edge(es, b, e), egeo(es.len() as int, e),
    ensures
        none_in(eaf(ks, es, e), in_hi::<K, Q>(b)),
        all_in(if e.right_needs_pruning || !efr(e) { pre(ks, es, e.ub_elems as int) } else { pre(ks, es, e.ub_elems as int) + kat(ks, e.ub_elems as int) }, in_hi::<K, Q>(b)),
{
    let hi = in_hi::<K, Q>(b);
    let lo = in_lo::<K, Q>(Bound::Unbounded);
    let a = e.ub_elems as int;
    lemma_bounds_mono::<K, Q>(b);
    lemma_bounds_mono::<K, Q>(Bound::Unbounded);
    if e.right_needs_pruning {
        lemma_pre_suf(ks, es, a);
        if a > 0 { lemma_cut_pred(ks, es, a - 1, lo, hi); } else { lemma_nothing(pre(ks, es, a), hi); }
        if a < es.len() { lemma_cut_pred(ks, es, a, lo, hi); } else { lemma_nothing(suf(ks, es, a), hi); }
    } else if b is Unbounded {
        lemma_pre_suf(ks, es, a);
        lemma_nothing(suf(ks, es, a), hi);
        assert(all_in(pre(ks, es, a) + kat(ks, a), hi)) by { reveal(all_in); }
    } else {
        let i = e.ub_kids - 1;
        lemma_cut_at(ks, es, i);
        let (l, x, r) = (pre(ks, es, i) + kat(ks, i), es[i], kat(ks, i + 1) + suf(ks, es, i + 1));
        assert(il(ks, es) == cat(l, x, r));
        lemma_bound_hits(l, x, r, b);
        lemma_in_one(x, hi);
        lemma_all_in_plus(l, seq![x], hi);
        lemma_none_in_plus(seq![x], r, hi);
    }
}
proof fn lemma_sel_agree<K, V>(s: Seq<(K, V)>, p: Pred<K>, q: Pred<K>)
    requires forall|i: int| 0 <= i < s.len() ==> p((#[trigger] s[i]).0) == q(s[i].0),
    ensures sel(s, p) == sel(s, q), sel(s, neg(p)) == sel(s, neg(q)),
    decreases s.len()
{
    reveal(sel);
    if s.len() > 0 {
        let d = s.drop_last();
        assert(forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == s[i]);
        lemma_sel_agree(d, p, q);
        assert(s.last() == s[s.len() - 1]);
    }
}
// what is selected, what is not: by p, by p's complement
proof fn lemma_sel_in<K, V>(s: Seq<(K, V)>, p: Pred<K>)
    ensures
        all_in(s, p) ==> sel(s, p) == s && sel(s, neg(p)) == Seq::<(K, V)>::empty(),
        none_in(s, p) ==> sel(s, p) == Seq::<(K, V)>::empty() && sel(s, neg(p)) == s,
{
    if all_in(s, p) {
        lemma_sel_all(s, p);
        assert(none_in(s, neg(p))) by { reveal(all_in); reveal(none_in); }
        lemma_sel_none(s, neg(p));
    }
    if none_in(s, p) {
        lemma_sel_none(s, p);
        assert(all_in(s, neg(p))) by { reveal(all_in); reveal(none_in); }
        lemma_sel_all(s, neg(p));
    }
}
// the predicate the child on the left (on the right) is cut by
spec fn epl<K, V, Q: Ord>(ks: Seq<Seq<(K, V)>>, lo: Bound<Q>, hi: Bound<Q>, e: RangeEdges) -> Pred<K> {
    both(in_lo::<K, Q>(lo), in_hi::<K, Q>(if eone(ks, e) { hi } else { Bound::Unbounded }))
}
spec fn epr<K, V, Q: Ord>(ks: Seq<Seq<(K, V)>>, lo: Bound<Q>, hi: Bound<Q>, e: RangeEdges) -> Pred<K> {
    both(in_lo::<K, Q>(if e.left_needs_pruning { Bound::Unbounded } else { lo }), in_hi::<K, Q>(hi))
}
spec fn epick<K: Ord, V, Q: Ord>(ks: Seq<Seq<(K, V)>>, es: Seq<(K, V)>, lo: Bound<Q>, hi: Bound<Q>, e: RangeEdges) -> bool {
    let p = both(in_lo::<K, Q>(lo), in_hi::<K, Q>(hi));
    let (pl, pr) = (epl(ks, lo, hi, e), epr(ks, lo, hi, e));
    let (bf, kl, md, kr, af) = (ebf(ks, es, e), ekl(ks, e), emd(ks, es, e), ekr(ks, e), eaf(ks, es, e));
    &&& sel(il(ks, es), p) == sel(kl, pl) + md + sel(kr, pr)
    &&& sel(il(ks, es), neg(p)) == bf + sel(kl, neg(pl)) + sel(kr, neg(pr)) + af
    &&& sorted(kl) && sorted(kr)
}
proof fn lemma_sel_five<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, c: Seq<(K, V)>, d: Seq<(K, V)>, e: Seq<(K, V)>, p: Pred<K>)
    ensures sel(a + b + c + d + e, p) == sel(a, p) + sel(b, p) + sel(c, p) + sel(d, p) + sel(e, p),
{
    lemma_sel_plus(a + b + c + d, e, p);
    lemma_sel_plus(a + b + c, d, p);
    lemma_sel_plus(a + b, c, p);
    lemma_sel_plus(a, b, p);
}
proof fn lemma_pick<K: Ord, V, Q: Ord>(ks: Seq<Seq<(K, V)>>, es: Seq<(K, V)>, lo: Bound<Q>, hi: Bound<Q>, e: RangeEdges)
    requires
        sorted(il(ks, es)), lawful_q::<K, Q>(), edges_ok(es, lo, hi, e),
        ks.len() == 0 || ks.len() == es.len() + 1,
    ensures epick(ks, es, lo, hi, e),
{
    let (l, h) = (in_lo::<K, Q>(lo), in_hi::<K, Q>(hi));
    let p = both(l, h);
    let (pl, pr) = (epl(ks, lo, hi, e), epr(ks, lo, hi, e));
    let (bf, kl, md, kr, af) = (ebf(ks, es, e), ekl(ks, e), emd(ks, es, e), ekr(ks, e), eaf(ks, es, e));
    assert(egeo(es.len() as int, e));
    lemma_edge_parts(ks, es, e);
    lemma_lf_edge(ks, es, lo, e);
    lemma_rt_edge(ks, es, hi, e);
    lemma_sorted_plus(bf + kl + md + kr, af);
    lemma_sorted_plus(bf + kl + md, kr);
    lemma_sorted_plus(bf + kl, md);
    lemma_sorted_plus(bf, kl);
    lemma_sel_five(bf, kl, md, kr, af, p);
    lemma_sel_five(bf, kl, md, kr, af, neg(p));
    lemma_none_both(bf, l, h); lemma_none_both(af, l, h);
    lemma_sel_in(bf, p); lemma_sel_in(af, p); lemma_sel_in(md, p);
    if eone(ks, e) {
        lemma_nothing(md, p);
        lemma_sel_agree(kl, p, pl);
        lemma_sel_agree(kr, p, pr);
    } else {
        lemma_all_in_plus(bf, kl + md, h); lemma_all_in_plus(kl, md, h);
        lemma_all_in_plus(md + kr, af, l); lemma_all_in_plus(md, kr, l);
        lemma_none_both(md, l, h);
        assert forall|i: int| 0 <= i < kl.len() implies p((#[trigger] kl[i]).0) == pl(kl[i].0) by { reveal(all_in); }
        assert forall|i: int| 0 <= i < kr.len() implies p((#[trigger] kr[i]).0) == pr(kr[i].0) by { reveal(all_in); }
        lemma_sel_agree(kl, p, pl);
        lemma_sel_agree(kr, p, pr);
    }
    let o = Seq::<(K, V)>::empty();
    assert(o + sel(kl, pl) + md + sel(kr, pr) + o =~= sel(kl, pl) + md + sel(kr, pr));
    assert(bf + sel(kl, neg(pl)) + o + sel(kr, neg(pr)) + af =~= bf + sel(kl, neg(pl)) + sel(kr, neg(pr)) + af);
}
spec fn oels<K, V, const N: usize>(n: Option<&Arc<Node<K, V, N>>>) -> Seq<(K, V)> { match n { Some(a) => nels(an(*a)), None => Seq::empty() } }
spec fn onh<K, V, const N: usize>(n: Option<&Arc<Node<K, V, N>>>) -> nat { match n { Some(a) => nh(an(*a)), None => 0 } }
// the children and entries left in view are those between the edges
spec fn nkids<K, V, const N: usize>(n: Node<K, V, N>, e: RangeEdges) -> int {
    if n.kids.len() == 0 || eone(ksq(n.kids@), e) { 0 } else { e.ub_kids - b2i(e.right_needs_pruning) - e.lb_kids - b2i(e.left_needs_pruning) }
}
spec fn left_of<'a, K, V, const N: usize>(n: Node<K, V, N>, e: RangeEdges, es: Seq<&'a (K, V)>, ks: Seq<&'a NodePtr<K, V, N>>) -> bool {
    &&& es.len() == e.ub_elems - e.lb_elems
    &&& forall|i: int| 0 <= i < es.len() ==> *(#[trigger] es[i]) == n.elems@[e.lb_elems + i]
    &&& ks.len() == nkids(n, e)
    &&& forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] ks[i]) == n.kids@[e.lb_kids + b2i(e.left_needs_pruning) + i]
}
proof fn lemma_push_node<'a, K, V, const N: usize>(n: Node<K, V, N>, e: RangeEdges, it: InnerNodeIter<'a, K, V, N>)
    requires
        okid(n), egeo(n.elems.len() as int, e), it.lf() == efl(e), it.rt() == efr(e),
        left_of(n, e, it.es(), it.ks()),
    ensures
        sound(it), rem(it) == emd(ksq(n.kids@), n.elems@, e),
        it.es().len() + it.ks().len() == 0 ==> rem(it) == Seq::<(K, V)>::empty(),
{
    lemma_okid(n);
    let (ks, es) = (ksq(n.kids@), n.elems@);
    let (a, b) = (e.lb_kids + b2i(e.left_needs_pruning), e.ub_kids - b2i(e.right_needs_pruning));
    let ve = evs::<InnerNodeIter<'a, K, V, N>>(it.es());
    let vk = kvs::<InnerNodeIter<'a, K, V, N>>(it.ks());
    assert(ve =~= es.subrange(e.lb_elems as int, e.ub_elems as int));
    if nkids(n, e) == 0 { lemma_alt_leaf(it.lf(), vk, ve); }
    if eone(ks, e) {
        assert(ve =~= Seq::<(K, V)>::empty());
    } else {
        assert(vk =~= sub(ks, a, b)) by {
            assert forall|i: int| 0 <= i < vk.len() implies #[trigger] vk[i] == sub(ks, a, b)[i] by { assert(*it.ks()[i] == n.kids@[a + i]); }
        }
    }
    assert forall|i: int| 0 <= i < it.ks().len() implies InnerNodeIter::<'a, K, V, N>::kok(#[trigger] it.ks()[i]) by {
        assert(*it.ks()[i] == n.kids@[a + i]);
        assert(okid(kd(n, a + i)));
    }
    if it.es().len() + it.ks().len() == 0 { assert(ve =~= Seq::<(K, V)>::empty()); }
}
proof fn lemma_three<E>(w: Seq<E>, a: Seq<E>, b: Seq<E>, c: Seq<E>)
    ensures w + a + b + c == w + (a + b + c),
{
    assert(w + a + b + c =~= w + (a + b + c));
}
proof fn lemma_sel_nil<K, V>(p: Pred<K>)
    ensures sel(Seq::<(K, V)>::empty(), p) == Seq::<(K, V)>::empty(),
{
    reveal(sel);
}
// the children cut on either side
proof fn lemma_cut_kids<K: Ord, V, const N: usize>(n: Node<K, V, N>, e: RangeEdges)
    requires okid(n), egeo(n.elems.len() as int, e), sorted(ekl(ksq(n.kids@), e)), sorted(ekr(ksq(n.kids@), e)),
    ensures
        n.kids.len() > 0 && e.left_needs_pruning ==> ({
            let k = kd(n, e.lb_kids as int);
            okid(k) && shp(k, 1) && nh(k) < nh(n) && sorted(nels(k)) && nels(k) == ekl(ksq(n.kids@), e)
        }),
        n.kids.len() > 0 && e.right_needs_pruning && !eone(ksq(n.kids@), e) ==> ({
            let k = kd(n, e.ub_kids - 1);
            okid(k) && shp(k, 1) && nh(k) < nh(n) && sorted(nels(k)) && nels(k) == ekr(ksq(n.kids@), e)
        }),
        n.kids.len() == 0 ==> ekl(ksq(n.kids@), e).len() == 0 && ekr(ksq(n.kids@), e).len() == 0,
{
    lemma_okid(n);
}
#fn make_worklist +where=K:Ord
    requires
        lawful_q::<K, Q>(), bfit(bval(lb), bval(ub)), okn::<N>(), good(old(work)@),
        n is Some ==> okid(an(*(n->0))) && sorted(nels(an(*(n->0)))),
    ensures
        good(final(work)@),
        flat(final(work)@) == flat(old(work)@) + sel(oels(n), both(in_lo::<K, Q>(bval(lb)), in_hi::<K, Q>(bval(ub)))),
    decreases onh(n),
@sub n\s*\.elems\[(\w+\.\w+)\.\.(\w+\.\w+)\]\s*\.iter\(\) => vsub(&n.elems, \1, \2)
@sub n\s*\.kids\s*\.get\((\w+\.\w+)\.\.(\w+\.\w+)\)\s*\.unwrap_or_default\(\)\s*\.iter\(\) => vsub_or(&n.kids, \1, \2)
@begin
    let ghost w0 = work@;
    let ghost n0 = n;
    let ghost (lo, hi) = (bval(lb), bval(ub));
    proof { lemma_sel_nil::<K, V>(both(in_lo::<K, Q>(lo), in_hi::<K, Q>(hi))); lemma_empty_add(flat(work@)); }
@before if edges\.left_needs_pruning
    let ghost nd0 = an(*n);
    let ghost (ks, es) = (ksq(an(*n).kids@), an(*n).elems@);
    proof {
        node(nd0); lemma_okid(nd0);
        lemma_pick(ks, es, lo, hi, edges);
        lemma_cut_kids(nd0, edges);
        lemma_sel_nil::<K, V>(epl(ks, lo, hi, edges));
        lemma_sel_nil::<K, V>(epr(ks, lo, hi, edges));
        assert(egeo(es.len() as int, edges));
    }
@before ?let to_prune
    let ghost w1 = work@;
    proof {
        lemma_empty_add(flat(w0));
        assert(flat(w1) == flat(w0) + sel(ekl(ks, edges), epl(ks, lo, hi, edges)));
    }
@before ?make_worklist\(to_prune
    let ghost w2 = work@;
    proof {
        if w2.len() > w1.len() {
            lemma_push(w1, w2.last());
            lemma_push_node(nd0, edges, w2.last());
        } else {
            assert(es.subrange(edges.lb_elems as int, edges.ub_elems as int) =~= Seq::<(K, V)>::empty());
            if !eone(ks, edges) && ks.len() > 0 {
                assert(sub(ks, edges.lb_kids + b2i(edges.left_needs_pruning), edges.ub_kids - b2i(edges.right_needs_pruning)) =~= Seq::<Seq<(K, V)>>::empty());
            }
            lemma_alt_leaf(efl(edges), Seq::<Seq<(K, V)>>::empty(), Seq::<(K, V)>::empty());
            assert(emd(ks, es, edges) =~= Seq::<(K, V)>::empty());
        }
        assert(flat(w2) == flat(w1) + emd(ks, es, edges));
    }
@tail
    proof {
        lemma_three(flat(w0), sel(ekl(ks, edges), epl(ks, lo, hi, edges)), emd(ks, es, edges), sel(ekr(ks, edges), epr(ks, lo, hi, edges)));
        lemma_empty_add(flat(w2));
        assert(flat(w2) == flat(w1) + emd(ks, es, edges));
    }
#raw
// --- the same, of mutable references -----------------------------------------
spec fn moels<'a, K, V, const N: usize>(n: Option<&'a mut Arc<Node<K, V, N>>>) -> Seq<(K, V)> { match n { Some(a) => nels(an(*a)), None => Seq::empty() } }
#[verifier::prophetic]
spec fn mfels<'a, K, V, const N: usize>(n: Option<&'a mut Arc<Node<K, V, N>>>) -> Seq<(K, V)> { match n { Some(a) => nels(an(*final(a))), None => Seq::empty() } }
#[verifier::prophetic]
spec fn malike<'a, K, V, const N: usize>(n: Option<&'a mut Arc<Node<K, V, N>>>) -> bool { match n { Some(a) => alike(an(*a), an(*final(a))), None => true } }
spec fn monh<'a, K, V, const N: usize>(n: Option<&'a mut Arc<Node<K, V, N>>>) -> nat { match n { Some(a) => nh(an(*a)), None => 0 } }
// the entries of n that p selects go into the list; the others stay as they are
#[verifier::prophetic]
spec fn cuts<'a, K, V, const N: usize>(n: Option<&'a mut Arc<Node<K, V, N>>>, ow: Seq<NodeIterMut<'a, K, V, N>>, fw: Seq<NodeIterMut<'a, K, V, N>>, p: Pred<K>) -> bool {
    &&& flat(fw) == flat(ow) + sel(moels(n), p)
    &&& same(fw) ==> same(ow) && malike(n) && fflat(fw) == fflat(ow) + sel(mfels(n), p) && sel(mfels(n), neg(p)) == sel(moels(n), neg(p))
}
// f is n but for what lies between the edges
spec fn outside_same<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, e: RangeEdges) -> bool {
    &&& f.elems.len() == n.elems.len() && f.kids.len() == n.kids.len()
    &&& forall|i: int| 0 <= i < n.elems.len() && !(e.lb_elems <= i < e.ub_elems) ==> #[trigger] f.elems@[i] == n.elems@[i]
    &&& forall|i: int| 0 <= i < n.kids.len() && !(e.lb_kids <= i < e.ub_kids) ==> #[trigger] f.kids@[i] == n.kids@[i]
}
spec fn mid_same<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, e: RangeEdges) -> bool {
    &&& forall|i: int| e.lb_elems <= i < e.ub_elems ==> (#[trigger] n.elems@[i]).0 == f.elems@[i].0
    &&& !eone(ksq(n.kids@), e) && n.kids.len() > 0 ==>
        forall|i: int| e.lb_kids + b2i(e.left_needs_pruning) <= i < e.ub_kids - b2i(e.right_needs_pruning) ==> alike(#[trigger] kd(n, i), kd(f, i))
}
spec fn lf_same<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, e: RangeEdges, p: Pred<K>) -> bool {
    &&& sel(ekl(ksq(f.kids@), e), neg(p)) == sel(ekl(ksq(n.kids@), e), neg(p))
    &&& e.left_needs_pruning && n.kids.len() > 0 ==> alike(kd(n, e.lb_kids as int), kd(f, e.lb_kids as int))
}
spec fn rt_same<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, e: RangeEdges, p: Pred<K>) -> bool {
    &&& sel(ekr(ksq(f.kids@), e), neg(p)) == sel(ekr(ksq(n.kids@), e), neg(p))
    &&& e.right_needs_pruning && n.kids.len() > 0 && !eone(ksq(n.kids@), e) ==> alike(kd(n, e.ub_kids - 1), kd(f, e.ub_kids - 1))
}
proof fn lemma_alike_self<K, V, const N: usize>(n: Node<K, V, N>)
    ensures alike(n, n),
{
}
proof fn lemma_ends_same<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, e: RangeEdges)
    requires egeo(n.elems.len() as int, e), n.kids.len() == 0 || n.kids.len() == n.elems.len() + 1, outside_same(n, f, e),
    ensures
        ebf(ksq(f.kids@), f.elems@, e) == ebf(ksq(n.kids@), n.elems@, e),
        eaf(ksq(f.kids@), f.elems@, e) == eaf(ksq(n.kids@), n.elems@, e),
{
    let (ks, kf) = (ksq(n.kids@), ksq(f.kids@));
    assert(forall|i: int| 0 <= i < ks.len() && !(e.lb_kids <= i < e.ub_kids) ==> #[trigger] kf[i] == ks[i]);
    lemma_pre_eq(ks, n.elems@, kf, f.elems@, e.lb_elems as int);
    lemma_suf_eq(ks, n.elems@, e.ub_elems as int, kf, f.elems@, e.ub_elems as int);
}
proof fn lemma_mut_alike<K: Ord, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, e: RangeEdges, pl: Pred<K>, pr: Pred<K>)
    requires
        okid(n), egeo(n.elems.len() as int, e), outside_same(n, f, e), mid_same(n, f, e), lf_same(n, f, e, pl), rt_same(n, f, e, pr),
    ensures
        alike(n, f),
        forall|i: int| 0 <= i < n.elems.len() ==> (#[trigger] n.elems@[i]).0 == f.elems@[i].0,
{
    lemma_okid(n);
    assert forall|i: int| 0 <= i < n.elems.len() implies (#[trigger] n.elems@[i]).0 == f.elems@[i].0 by {
        if !(e.lb_elems <= i < e.ub_elems) { assert(f.elems@[i] == n.elems@[i]); }
    }
    assert forall|i: int| 0 <= i < n.kids.len() implies alike(#[trigger] kd(n, i), kd(f, i)) by {
        if !(e.lb_kids <= i < e.ub_kids) { assert(f.kids@[i] == n.kids@[i]); lemma_alike_self(kd(n, i)); }
        else if i == e.lb_kids && e.left_needs_pruning {}
        else if i == e.ub_kids - 1 && e.right_needs_pruning {}
        else {}
    }
    lemma_alike(n, f);
}
proof fn lemma_edges_alike<K, V, Q: Ord>(a: Seq<(K, V)>, b: Seq<(K, V)>, lo: Bound<Q>, hi: Bound<Q>, e: RangeEdges)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0, edges_ok(a, lo, hi, e),
    ensures edges_ok(b, lo, hi, e),
{
    let _ = (a[e.lb_elems as int], a[e.lb_elems - 1], a[e.ub_elems as int], a[e.ub_elems - 1], a[e.lb_kids - 1], a[e.ub_kids - 1]);
}
proof fn lemma_mut_cut<K: Ord, V, const N: usize, Q: Ord>(n: Node<K, V, N>, f: Node<K, V, N>, lo: Bound<Q>, hi: Bound<Q>, e: RangeEdges)
    requires
        okid(n), sorted(nels(n)), lawful_q::<K, Q>(), edges_ok(n.elems@, lo, hi, e), outside_same(n, f, e), mid_same(n, f, e),
        lf_same(n, f, e, epl(ksq(n.kids@), lo, hi, e)), rt_same(n, f, e, epr(ksq(n.kids@), lo, hi, e)),
    ensures
        alike(n, f),
        sel(nels(f), both(in_lo::<K, Q>(lo), in_hi::<K, Q>(hi)))
            == sel(ekl(ksq(f.kids@), e), epl(ksq(n.kids@), lo, hi, e)) + emd(ksq(f.kids@), f.elems@, e) + sel(ekr(ksq(f.kids@), e), epr(ksq(n.kids@), lo, hi, e)),
        sel(nels(f), neg(both(in_lo::<K, Q>(lo), in_hi::<K, Q>(hi)))) == sel(nels(n), neg(both(in_lo::<K, Q>(lo), in_hi::<K, Q>(hi)))),
{
    let (ks, kf) = (ksq(n.kids@), ksq(f.kids@));
    lemma_okid(n);
    node(n); node(f);
    lemma_mut_alike(n, f, e, epl(ks, lo, hi, e), epr(ks, lo, hi, e));
    lemma_same_keys_sorted(nels(n), nels(f));
    lemma_edges_alike(n.elems@, f.elems@, lo, hi, e);
    lemma_pick(ks, n.elems@, lo, hi, e);
    lemma_pick(kf, f.elems@, lo, hi, e);
    lemma_ends_same(n, f, e);
    assert(eone(kf, e) == eone(ks, e));
}
proof fn lemma_mut_cut_if<K: Ord, V, const N: usize, Q: Ord>(c: bool, n: Node<K, V, N>, f: Node<K, V, N>, lo: Bound<Q>, hi: Bound<Q>, e: RangeEdges)
    requires
        okid(n), sorted(nels(n)), lawful_q::<K, Q>(), edges_ok(n.elems@, lo, hi, e), outside_same(n, f, e), c ==> mid_same(n, f, e),
        c ==> lf_same(n, f, e, epl(ksq(n.kids@), lo, hi, e)), c ==> rt_same(n, f, e, epr(ksq(n.kids@), lo, hi, e)),
    ensures
        c ==> alike(n, f)
            && sel(nels(f), both(in_lo::<K, Q>(lo), in_hi::<K, Q>(hi)))
                == sel(ekl(ksq(f.kids@), e), epl(ksq(n.kids@), lo, hi, e)) + emd(ksq(f.kids@), f.elems@, e) + sel(ekr(ksq(f.kids@), e), epr(ksq(n.kids@), lo, hi, e))
            && sel(nels(f), neg(both(in_lo::<K, Q>(lo), in_hi::<K, Q>(hi)))) == sel(nels(n), neg(both(in_lo::<K, Q>(lo), in_hi::<K, Q>(hi)))),
{
    if c { lemma_mut_cut(n, f, lo, hi, e); }
}
#[verifier::prophetic]
spec fn left_of_mut<'a, K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, e: RangeEdges, es: Seq<&'a mut (K, V)>, ks: Seq<&'a mut NodePtr<K, V, N>>) -> bool {
    &&& f.elems.len() == n.elems.len() && f.kids.len() == n.kids.len()
    &&& es.len() == e.ub_elems - e.lb_elems
    &&& forall|i: int| 0 <= i < es.len() ==> *(#[trigger] es[i]) == n.elems@[e.lb_elems + i] && *final(es[i]) == f.elems@[e.lb_elems + i]
    &&& ks.len() == nkids(n, e)
    &&& forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] ks[i]) == n.kids@[e.lb_kids + b2i(e.left_needs_pruning) + i]
            && *final(ks[i]) == f.kids@[e.lb_kids + b2i(e.left_needs_pruning) + i]
}
proof fn lemma_push_mut<'a, K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, e: RangeEdges, it: NodeIterMut<'a, K, V, N>)
    requires
        okid(n), egeo(n.elems.len() as int, e), it.lf() == efl(e), it.rt() == efr(e),
        left_of_mut(n, f, e, it.es(), it.ks()),
    ensures
        sound(it), rem(it) == emd(ksq(n.kids@), n.elems@, e), frem(it) == emd(ksq(f.kids@), f.elems@, e),
        isame(it) ==> mid_same(n, f, e),
{
    lemma_okid(n);
    let (ks, es) = (ksq(n.kids@), n.elems@);
    let (kf, ef) = (ksq(f.kids@), f.elems@);
    let (a, b) = (e.lb_kids + b2i(e.left_needs_pruning), e.ub_kids - b2i(e.right_needs_pruning));
    let ve = evs::<NodeIterMut<'a, K, V, N>>(it.es());
    let vk = kvs::<NodeIterMut<'a, K, V, N>>(it.ks());
    let we = fevs::<NodeIterMut<'a, K, V, N>>(it.es());
    let wk = fkvs::<NodeIterMut<'a, K, V, N>>(it.ks());
    assert(ve =~= es.subrange(e.lb_elems as int, e.ub_elems as int));
    assert(we =~= ef.subrange(e.lb_elems as int, e.ub_elems as int));
    if nkids(n, e) == 0 { lemma_alt_leaf(it.lf(), vk, ve); lemma_alt_leaf(it.lf(), wk, we); }
    assert(eone(kf, e) == eone(ks, e));
    if eone(ks, e) {
        assert(ve =~= Seq::<(K, V)>::empty());
        assert(we =~= Seq::<(K, V)>::empty());
    } else {
        assert(vk =~= sub(ks, a, b)) by {
            assert forall|i: int| 0 <= i < vk.len() implies #[trigger] vk[i] == sub(ks, a, b)[i] by { assert(*it.ks()[i] == n.kids@[a + i]); }
        }
        assert(wk =~= sub(kf, a, b)) by {
            assert forall|i: int| 0 <= i < wk.len() implies #[trigger] wk[i] == sub(kf, a, b)[i] by { assert(*final(it.ks()[i]) == f.kids@[a + i]); }
        }
    }
    assert forall|i: int| 0 <= i < it.ks().len() implies NodeIterMut::<'a, K, V, N>::kok(#[trigger] it.ks()[i]) by {
        assert(*it.ks()[i] == n.kids@[a + i]);
        assert(okid(kd(n, a + i)));
    }
    assert forall|i: int| isame(it) && e.lb_elems <= i < e.ub_elems implies (#[trigger] n.elems@[i]).0 == f.elems@[i].0 by {
        assert(NodeIterMut::<'a, K, V, N>::esame(it.es()[i - e.lb_elems]));
    }
    assert forall|i: int| isame(it) && !eone(ks, e) && n.kids.len() > 0 && a <= i < b implies alike(#[trigger] kd(n, i), kd(f, i)) by {
        assert(NodeIterMut::<'a, K, V, N>::ksame(it.ks()[i - a]));
    }
}
proof fn lemma_push_none<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, e: RangeEdges)
    requires
        egeo(n.elems.len() as int, e), n.kids.len() == 0 || n.kids.len() == n.elems.len() + 1,
        f.elems.len() == n.elems.len(), f.kids.len() == n.kids.len(),
        e.lb_elems == e.ub_elems, nkids(n, e) == 0,
    ensures
        emd(ksq(n.kids@), n.elems@, e) == Seq::<(K, V)>::empty(), emd(ksq(f.kids@), f.elems@, e) == Seq::<(K, V)>::empty(),
        mid_same(n, f, e),
{
    let o = Seq::<(K, V)>::empty();
    let ok = Seq::<Seq<(K, V)>>::empty();
    let (a, b) = (e.lb_elems as int, e.ub_elems as int);
    let (c, d) = (e.lb_kids + b2i(e.left_needs_pruning), e.ub_kids - b2i(e.right_needs_pruning));
    assert(n.elems@.subrange(a, b) =~= o && f.elems@.subrange(a, b) =~= o);
    if !eone(ksq(n.kids@), e) {
        assert(sub(ksq(n.kids@), c, d) =~= ok);
        assert(sub(ksq(f.kids@), c, d) =~= ok);
    }
    lemma_alt_leaf(efl(e), ok, o);
}
#fn make_mut_worklist +where=K:Ord +rlimit=150
    requires
        lawful_q::<K, Q>(), bfit(bval(lb), bval(ub)), okn::<N>(), good(old(work)@),
        n is Some ==> okid(an(*(n->0))) && sorted(nels(an(*(n->0)))),
    ensures
        good(final(work)@),
        cuts(n, old(work)@, final(work)@, both(in_lo::<K, Q>(bval(lb)), in_hi::<K, Q>(bval(ub)))),
    decreases monh(n),
@sub n\s*\.elems\[(\w+\.\w+)\.\.(\w+\.\w+)\]\s*\.iter_mut\(\) => vsub_mut(&mut n.elems, \1, \2)
@sub n\s*(?://[^\n]*\s*)?\.kids\s*\.get_mut\((\w+\.\w+)\.\.(\w+\.\w+)\)\s*\.unwrap_or_default\(\)\s*\.iter_mut\(\) => vsub_or_mut(&mut n.kids, \1, \2)
@begin
    let ghost w0 = work@;
    let ghost n0 = n;
    let ghost (lo, hi) = (bval(lb), bval(ub));
    proof {
        lemma_sel_nil::<K, V>(both(in_lo::<K, Q>(lo), in_hi::<K, Q>(hi)));
        lemma_sel_nil::<K, V>(neg(both(in_lo::<K, Q>(lo), in_hi::<K, Q>(hi))));
        lemma_empty_add(flat(work@)); lemma_empty_add(fflat(work@));
    }
@before if edges\.left_needs_pruning
    let ghost nd0 = an(*(n0->0));
    let ghost fin = an(*final(n0->0));
    let ghost (ks, es) = (ksq(nd0.kids@), nd0.elems@);
    let ghost (pl, pr) = (epl(ks, lo, hi, edges), epr(ks, lo, hi, edges));
    proof {
        node(nd0); lemma_okid(nd0); node(fin);
        lemma_pick(ks, es, lo, hi, edges);
        lemma_cut_kids(nd0, edges);
        lemma_sel_nil::<K, V>(pl); lemma_sel_nil::<K, V>(neg(pl));
        lemma_sel_nil::<K, V>(pr); lemma_sel_nil::<K, V>(neg(pr));
        assert(egeo(es.len() as int, edges));
        assert(outside_same(nd0, fin, edges));
    }
@before ?let to_prune
    let ghost w1 = work@;
    proof {
        lemma_empty_add(flat(w0)); lemma_empty_add(fflat(w0));
        assert(flat(w1) == flat(w0) + sel(ekl(ks, edges), pl));
        assert(same(w1) ==> same(w0) && fflat(w1) == fflat(w0) + sel(ekl(ksq(fin.kids@), edges), pl) && lf_same(nd0, fin, edges, pl));
    }
@before ?make_mut_worklist\(to_prune
    let ghost w2 = work@;
    proof {
        lemma_empty_add(flat(w1)); lemma_empty_add(fflat(w1));
        if w2.len() > w1.len() {
            lemma_push(w1, w2.last());
            lemma_push_mut(nd0, fin, edges, w2.last());
        } else {
            lemma_push_none(nd0, fin, edges);
        }
        assert(flat(w2) == flat(w1) + emd(ks, es, edges));
        assert(fflat(w2) == fflat(w1) + emd(ksq(fin.kids@), fin.elems@, edges));
        assert(same(w2) ==> same(w1) && mid_same(nd0, fin, edges));
    }
@tail
    proof {
        let w3 = work@;
        lemma_three(flat(w0), sel(ekl(ks, edges), pl), emd(ks, es, edges), sel(ekr(ks, edges), pr));
        lemma_three(fflat(w0), sel(ekl(ksq(fin.kids@), edges), pl), emd(ksq(fin.kids@), fin.elems@, edges), sel(ekr(ksq(fin.kids@), edges), pr));
        lemma_empty_add(flat(w2)); lemma_empty_add(fflat(w2));
        assert(flat(w3) == flat(w2) + sel(ekr(ks, edges), pr));
        assert(same(w3) ==> same(w2) && fflat(w3) == fflat(w2) + sel(ekr(ksq(fin.kids@), edges), pr) && rt_same(nd0, fin, edges, pr));
        lemma_mut_cut_if(same(w3), nd0, fin, lo, hi, edges);
    }
#subst \.start_bound\(\) => .vstart()
#subst \.end_bound\(\) => .vend()
#item struct Range +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V) +attr=verifier::reject_recursive_types(N)
#item struct RangeMut +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V) +attr=verifier::reject_recursive_types(N)
#raw
spec fn rsel<K: Ord, V, Q: Ord, R>(range: R) -> Pred<K> { both(in_lo::<K, Q>(rlo::<Q, R>(range)), in_hi::<K, Q>(rhi::<Q, R>(range))) }
// an iterator over exactly these entries
#[verifier::prophetic]
spec fn among<I: NodeIter>(i: InnerIter<I>, s: Seq<I::E>) -> bool {
    ready(i) && flat(i.work@) == s && makes(i.make_node_iter)
}
// an iterator of references to the entries of `o` that p selects; `o` will be `n` when it has ended
#[verifier::prophetic]
spec fn among_mut<'a, K: Ord + Clone, V: Clone, const N: usize>(i: InnerIter<NodeIterMut<'a, K, V, N>>, o: BTreeMap<K, V, N>, n: BTreeMap<K, V, N>, p: Pred<K>) -> bool {
    &&& among(i, sel(mels(o), p))
    &&& same(i.work@) ==> mwf(n) && n.len == o.len && keys_of(mels(n)) == keys_of(mels(o))
        && sel(mels(n), p) == fflat(i.work@) && sel(mels(n), neg(p)) == sel(mels(o), neg(p))
}
#fn Range::new -> r +where=K:Ord
    requires mwf(*m), lawful_q::<K, Q>(), bfit(rlo::<Q, R>(range), rhi::<Q, R>(range)),
    ensures among(r.iter, sel(mels(*m), rsel::<K, V, Q, R>(range))),
@sub ?\b(k[12]) < (k[12])\b => vlt(\1, \2)
@sub ?\b(k[12]) > (k[12])\b => vgt(\1, \2)
@begin
    proof { if !(rlo::<Q, R>(range) is Unbounded || rhi::<Q, R>(range) is Unbounded) { reveal(ord_laws); law_flip(bq(rlo::<Q, R>(range)), bq(rhi::<Q, R>(range))); } }
@tail
    proof {
        lemma_ends(Seq::<InnerNodeIter<'a, K, V, N>>::empty());
        lemma_empty_add(sel(mels(*m), rsel::<K, V, Q, R>(range)));
        lemma_sel_len(mels(*m), rsel::<K, V, Q, R>(range));
    }
#fn RangeMut::new -> r +where=K:Ord
    requires mwf(*old(m)), lawful_q::<K, Q>(), bfit(rlo::<Q, R>(range), rhi::<Q, R>(range)),
    ensures among_mut(r.iter, *old(m), *final(m), rsel::<K, V, Q, R>(range)),
@sub ?\b(k[12]) < (k[12])\b => vlt(\1, \2)
@sub ?\b(k[12]) > (k[12])\b => vgt(\1, \2)
@begin
    let ghost m0 = *m;
    let ghost fin = *final(m);
    proof { if !(rlo::<Q, R>(range) is Unbounded || rhi::<Q, R>(range) is Unbounded) { reveal(ord_laws); law_flip(bq(rlo::<Q, R>(range)), bq(rhi::<Q, R>(range))); } }
@tail
    proof {
        lemma_ends(Seq::<NodeIterMut<'a, K, V, N>>::empty());
        lemma_empty_add(sel(mels(m0), rsel::<K, V, Q, R>(range)));
        lemma_empty_add(sel(mels(fin), rsel::<K, V, Q, R>(range)));
        lemma_sel_len(mels(m0), rsel::<K, V, Q, R>(range));
        lemma_alike_wf(m0, fin);
    }
#fn Iterator@Range::next -> r
    requires ready(old(self).iter), makes(old(self).iter.make_node_iter),
    ensures
        final(self).iter.make_node_iter == old(self).iter.make_node_iter,
        stepped(old(self).iter, final(self).iter, r is Some, pair_of(r), pair_of(r), true, true),
@sub \b(self\.iter\.next\w*\(\))\.map\(\|\((ref [^|]*)\)\|\s*([^;{}]*)\)(?=\s*\}\s*$) => match \1 { Some((\2)) => Some(\3), None => None }
#fn DoubleEndedIterator@Range::next_back -> r
    requires ready(old(self).iter), makes(old(self).iter.make_node_iter),
    ensures
        final(self).iter.make_node_iter == old(self).iter.make_node_iter,
        stepped(old(self).iter, final(self).iter, r is Some, pair_of(r), pair_of(r), true, false),
@sub \b(self\.iter\.next\w*\(\))\.map\(\|\((ref [^|]*)\)\|\s*([^;{}]*)\)(?=\s*\}\s*$) => match \1 { Some((\2)) => Some(\3), None => None }
#fn Iterator@RangeMut::next -> r
    requires ready(old(self).iter), makes(old(self).iter.make_node_iter),
    ensures
        final(self).iter.make_node_iter == old(self).iter.make_node_iter,
        stepped(old(self).iter, final(self).iter, r is Some, mpair_of(r), fpair_of(r), true, true),
@sub \b(self\.iter\.next\w*\(\))\.map\(\|\((ref [^|]*)\)\|\s*([^;{}]*)\)(?=\s*\}\s*$) => match \1 { Some((\2)) => Some(\3), None => None }
#fn DoubleEndedIterator@RangeMut::next_back -> r
    requires ready(old(self).iter), makes(old(self).iter.make_node_iter),
    ensures
        final(self).iter.make_node_iter == old(self).iter.make_node_iter,
        stepped(old(self).iter, final(self).iter, r is Some, mpair_of(r), fpair_of(r), true, false),
@sub \b(self\.iter\.next\w*\(\))\.map\(\|\((ref [^|]*)\)\|\s*([^;{}]*)\)(?=\s*\}\s*$) => match \1 { Some((\2)) => Some(\3), None => None }
#fn BTreeMap::range -> r +where=K:Ord
    requires mwf(*self), lawful_q::<K, Q>(), bfit(rlo::<Q, R>(range), rhi::<Q, R>(range)),
    ensures among(r.iter, sel(mels(*self), rsel::<K, V, Q, R>(range))),
#fn BTreeMap::range_mut -> r +where=K:Ord
    requires mwf(*old(self)), lawful_q::<K, Q>(), bfit(rlo::<Q, R>(range), rhi::<Q, R>(range)),
    ensures among_mut(r.iter, *old(self), *final(self), rsel::<K, V, Q, R>(range)),
#raw
// --- size_hint: every child holds N entries at least --------------------------
spec fn least<I: NodeIter>(it: I, n: int) -> int { it.es().len() + n * it.ks().len() }
spec fn leasts<I: NodeIter>(w: Seq<I>, n: int) -> int
    decreases w.len()
{
    if w.len() == 0 { 0 } else { leasts(w.drop_last(), n) + least(w.last(), n) }
}
proof fn lemma_alt_least<E>(l: bool, r: bool, ks: Seq<Seq<E>>, es: Seq<E>, n: int)
    requires bal(l, r, ks.len() as int, es.len() as int), forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).len() >= n,
    ensures alt(l, ks, es).len() >= es.len() + n * ks.len(),
    decreases ks.len() + es.len()
{
    if ks.len() == 0 {
        lemma_alt_leaf(l, ks, es);
        assert(n * ks.len() == 0) by (nonlinear_arith) requires ks.len() == 0;
    } else if l {
        let k1 = ks.skip(1);
        assert(forall|i: int| 0 <= i < k1.len() ==> #[trigger] k1[i] == ks[i + 1]);
        lemma_alt_least(false, r, k1, es, n);
        assert(n * ks.len() == n + n * k1.len()) by (nonlinear_arith) requires ks.len() == k1.len() + 1;
    } else {
        lemma_alt_least(true, r, ks, es.skip(1), n);
    }
}
proof fn lemma_leasts<I: NodeIter>(w: Seq<I>, n: int)
    requires
        good(w), n >= 0,
        forall|j: int, i: int| 0 <= j < w.len() && 0 <= i < w[j].ks().len() ==> I::kv(#[trigger] w[j].ks()[i]).len() >= n,
    ensures
        leasts(w, n) <= flat(w).len(),
        forall|i: int| 0 <= i < w.len() ==> 0 <= #[trigger] least(w[i], n) <= flat(w).len(),
    decreases w.len()
{
    if w.len() > 0 {
        let u = w.drop_last();
        let a = w.last();
        assert forall|j: int, i: int| 0 <= j < u.len() && 0 <= i < u[j].ks().len() implies I::kv(#[trigger] u[j].ks()[i]).len() >= n by {
            assert(w[j].ks()[i] == u[j].ks()[i]);
        }
        lemma_leasts(u, n);
        assert forall|i: int| 0 <= i < kvs::<I>(a.ks()).len() implies (#[trigger] kvs::<I>(a.ks())[i]).len() >= n by {
            assert(w[w.len() - 1].ks()[i] == a.ks()[i]);
        }
        lemma_alt_least(a.lf(), a.rt(), kvs::<I>(a.ks()), evs::<I>(a.es()), n);
        assert(n * a.ks().len() >= 0) by (nonlinear_arith) requires n >= 0;
        assert forall|i: int| 0 <= i < w.len() implies 0 <= #[trigger] least(w[i], n) <= flat(w).len() by {
            if i < u.len() { assert(w[i] == u[i]); }
        }
    }
}
proof fn lemma_good_kids<I: NodeIter>(w: Seq<I>)
    requires good(w),
    ensures forall|j: int, i: int| 0 <= j < w.len() && 0 <= i < w[j].ks().len() ==> I::kok(#[trigger] w[j].ks()[i]),
    decreases w.len()
{
    if w.len() > 0 {
        let u = w.drop_last();
        lemma_good_kids(u);
        assert forall|j: int, i: int| 0 <= j < w.len() && 0 <= i < w[j].ks().len() implies I::kok(#[trigger] w[j].ks()[i]) by {
            if j < u.len() { assert(u[j].ks()[i] == w[j].ks()[i]); }
        }
    }
}
proof fn lemma_full<K, V, const N: usize>(n: Node<K, V, N>)
    requires okid(n),
    ensures nels(n).len() >= n.elems.len(),
{
    lemma_okid(n);
    node(n);
    lemma_il_len(ksq(n.kids@), n.elems@);
}
// w.iter().map(f).sum()
#[verifier::external_body]
fn vsum_by<E, F: Fn(&E) -> usize>(w: &VecDeque<E>, Ghost(g): Ghost<spec_fn(Seq<E>) -> int>, f: F) -> (r: usize)
    requires
        forall|i: int| 0 <= i < w@.len() ==> f.requires((&#[trigger] w@[i],)),
        g(Seq::empty()) == 0,
        forall|i: int, x: usize| 0 <= i < w@.len() && #[trigger] f.ensures((&w@[i],), x) ==> g(w@.take(i + 1)) == g(w@.take(i)) + x,
        g(w@) <= usize::MAX,
    ensures r == g(w@),
{ w.iter().map(f).sum() }
#fn Iterator@Range::size_hint -> r
    requires ready(self.iter),
    ensures r.0 <= flat(self.iter.work@).len(), r.1 is Some, flat(self.iter.work@).len() <= r.1->0,
@sub self\s*\.iter\s*\.work\s*\.iter\(\)\s*\.map\((\|\w+\|[^;]*)\)\s*\.sum\(\) => vsum_by(&self.iter.work, Ghost(g), \1)
@begin
    let ghost w = self.iter.work@;
    let ghost g = |s: Seq<InnerNodeIter<'a, K, V, N>>| leasts(s, N as int);
    proof {
        lemma_good_kids(w);
        assert forall|j: int, i: int| 0 <= j < w.len() && 0 <= i < w[j].ks().len() implies InnerNodeIter::<'a, K, V, N>::kv(#[trigger] w[j].ks()[i]).len() >= N by {
            lemma_full(an(*w[j].ks()[i]));
        }
        lemma_leasts(w, N as int);
        assert forall|i: int| 0 <= i < w.len() implies leasts(w.take(i + 1), N as int) == leasts(w.take(i), N as int) + #[trigger] least(w[i], N as int) by {
            assert(w.take(i + 1).drop_last() =~= w.take(i));
        }
    }
@closure 0 (erg: &InnerNodeIter<'a, K, V, N>) -> (r: usize)
    requires 0 <= least(*erg, N as int) <= usize::MAX,
    ensures r == least(*erg, N as int),
#fn Iterator@RangeMut::size_hint -> r
    requires ready(self.iter),
    ensures r.0 <= flat(self.iter.work@).len(), r.1 is Some, flat(self.iter.work@).len() <= r.1->0,
@sub self\s*\.iter\s*\.work\s*\.iter\(\)\s*\.map\((\|\w+\|[^;]*)\)\s*\.sum\(\) => vsum_by(&self.iter.work, Ghost(g), \1)
@begin
    let ghost w = self.iter.work@;
    let ghost g = |s: Seq<NodeIterMut<'a, K, V, N>>| leasts(s, N as int);
    proof {
        lemma_good_kids(w);
        assert forall|j: int, i: int| 0 <= j < w.len() && 0 <= i < w[j].ks().len() implies NodeIterMut::<'a, K, V, N>::kv(#[trigger] w[j].ks()[i]).len() >= N by {
            lemma_full(an(*w[j].ks()[i]));
        }
        lemma_leasts(w, N as int);
        assert forall|i: int| 0 <= i < w.len() implies leasts(w.take(i + 1), N as int) == leasts(w.take(i), N as int) + #[trigger] least(w[i], N as int) by {
            assert(w.take(i + 1).drop_last() =~= w.take(i));
        }
    }
@closure 0 (erg: &NodeIterMut<'a, K, V, N>) -> (r: usize)
    requires 0 <= least(*erg, N as int) <= usize::MAX,
    ensures r == least(*erg, N as int),
