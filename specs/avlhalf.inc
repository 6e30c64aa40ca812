#prop C13
#item enum MapErr +attr=derive(Debug)
#item struct Half
#raw
// --- halves: trees under construction from a stream of announced length ------
spec fn hseq<K, V>(h: Half<K, V>) -> Seq<(K, V)> { els(h.h.0).push((h.h.1, h.h.2)) }
// the height that l announced entries may lead to
spec fn hlim(l: int) -> int
    decreases l
{
    if l <= 1 { 0 } else if l == 2 { 1 } else { 1 + hlim(l - l / 2) }
}
spec fn hpart<K, V>(h: Half<K, V>, l: int) -> bool {
    cached(h.h.0) && ht(h.h.0) <= hlim(l) && els(h.h.0).len() < l <= usize::MAX
}
spec fn hwhole<K, V>(h: Half<K, V>, l: int) -> bool {
    shape(h.h.0) && ht(h.h.0) == hlim(l) && els(h.h.0).len() + 1 == l <= usize::MAX
}
proof fn lemma_cached_if<K, V>(t: OptNode<K, V>)
    ensures shape(t) ==> cached(t),
{
    if shape(t) { lemma_cached(t); }
}
proof fn lemma_hlim_step(l: int)
    requires 1 <= l,
    ensures hlim(l) <= hlim(l + 1) <= hlim(l) + 1,
    decreases l
{
    if l >= 2 {
        if l % 2 == 0 {
            assert(l + 1 - (l + 1) / 2 == l - l / 2 + 1);
            if l >= 3 { lemma_hlim_step(l - l / 2); } else { assert(hlim(3) == 1 + hlim(2)); }
        } else {
            assert(l + 1 - (l + 1) / 2 == l - l / 2);
        }
    }
}
proof fn lemma_hlim_mono(l: int, m: int)
    requires 1 <= l <= m,
    ensures hlim(l) <= hlim(m),
    decreases m - l
{
    if l < m { lemma_hlim_step(m - 1); lemma_hlim_mono(l, m - 1); }
}
spec fn p2(k: nat) -> int
    decreases k
{
    if k == 0 { 1 } else { 2 * p2((k - 1) as nat) }
}
proof fn lemma_hlim_p2(l: int, k: nat)
    requires l <= p2(k),
    ensures 0 <= hlim(l) <= k,
    decreases k
{
    if l > 2 {
        if k == 0 { } else { lemma_hlim_p2(l - l / 2, (k - 1) as nat); }
    } else if l == 2 && k == 0 { }
}
// heights stay far below the limit of an i8
proof fn lemma_hlim_ok(l: int)
    requires l <= usize::MAX,
    ensures 0 <= hlim(l) <= 64,
{
    assert(p2(64) == 0x1_0000_0000_0000_0000) by (compute);
    lemma_hlim_p2(l, 64);
}
// every key of s lies above the key referred to
spec fn from<K: Ord, V>(g: Option<&K>, s: Seq<(K, V)>) -> bool { g is Some ==> all_gt(s, *(g->0)) }
// the last key of s, or what came before
spec fn upto<K, V>(g: Option<&K>, s: Seq<(K, V)>) -> Option<K> {
    if s.len() > 0 { Some(s.last().0) } else { match g { Some(k) => Some(*k), None => None } }
}
spec fn oval<K>(g: Option<&K>) -> Option<K> { match g { Some(k) => Some(*k), None => None } }
#subst \bassert!\( => vassert!(
#subst (\w+)\.iter\(\)\.any\(\|&(\w+)\|\s*\2\s*>=\s*&self\.key\) => vopt_ge(\1,&self.key)
#raw
fn vopt_ge<K: Ord>(g: Option<&K>, k: &K) -> (r: bool)
    ensures r == (g is Some && !((*(g->0)).cmp_spec(k) is Less)),
{
    match g { Some(x) => vge(x, k), None => false }
}
proof fn lemma_chk<K: Ord, V>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>)
    requires lawful::<K>(),
    ensures
        sorted(cat(l, e, r)) <==> sorted(l) && sorted(r) && (l.len() > 0 ==> lt(l.last().0, e.0)) && all_gt(r, e.0),
        cat(l, e, r).len() == l.len() + 1 + r.len(),
        forall|g: Option<&K>| #![trigger from(g, cat(l, e, r))] #![trigger from(g, l)] {
            &&& from(g, cat(l, e, r)) ==> from(g, l) && (g is Some ==> lt(*(g->0), e.0))
            &&& sorted(cat(l, e, r)) && from(g, l) && (g is Some && l.len() == 0 ==> lt(*(g->0), e.0)) ==> from(g, cat(l, e, r))
        },
        cat(l, e, r).last() == (if r.len() > 0 { r.last() } else { e }),
        from(None::<&K>, l),
{
    let s = cat(l, e, r);
    lemma_sorted_cat(l, e, r);
    reveal(all_lt); reveal(all_gt); reveal(sorted);
    if sorted(l) && l.len() > 0 && lt(l.last().0, e.0) {
        assert forall|i: int| 0 <= i < l.len() implies lt(#[trigger] l[i].0, e.0) by {
            if i < l.len() - 1 { assert(lt(l[i].0, l.last().0)); law_trans(l[i].0, l.last().0, e.0); }
        }
    }
    assert(s[l.len() as int] == e);
    assert forall|g: Option<&K>| #![trigger from(g, cat(l, e, r))] #![trigger from(g, l)] {
            &&& from(g, cat(l, e, r)) ==> from(g, l) && (g is Some ==> lt(*(g->0), e.0))
            &&& sorted(cat(l, e, r)) && from(g, l) && (g is Some && l.len() == 0 ==> lt(*(g->0), e.0)) ==> from(g, cat(l, e, r))
        } by {
        if g is Some {
            let k = *(g->0);
            if from(g, s) {
                assert forall|i: int| 0 <= i < l.len() implies lt(k, #[trigger] l[i].0) by { assert(s[i] == l[i]); }
            }
            if sorted(s) && from(g, l) && (l.len() == 0 ==> lt(k, e.0)) {
                assert forall|i: int| 0 <= i < s.len() implies lt(k, #[trigger] s[i].0) by {
                    if i > 0 {
                        assert(lt(s[0].0, s[i].0));
                        if l.len() > 0 { assert(s[0] == l[0]); assert(lt(k, l[0].0)); } else { assert(s[0] == e); }
                        law_trans(k, s[0].0, s[i].0);
                    } else if l.len() > 0 { assert(s[0] == l[0]); } else { assert(s[0] == e); }
                }
            }
        }
    }
}
#fn Node::chk -> r
    requires cached(self.left), cached(self.right), self.left_ht == ht(self.left), self.right_ht == ht(self.right),
        ht(self.left) <= 100, ht(self.right) <= 100, nels(*self).len() <= usize::MAX, lawful::<K>(),
    ensures
        r is Ok ==> {
            &&& nshape(*self) && -1 <= self.right_ht - self.left_ht <= 1
            &&& sorted(nels(*self)) && from(greatest, nels(*self))
            &&& (r->Ok_0).0 == nels(*self).len()
            &&& oval((r->Ok_0).1) == upto(greatest, nels(*self))
        },
        r is Err ==> match r->Err_0 {
            MapErr::Unsorted => !sorted(nels(*self)) || !from(greatest, nels(*self)),
            MapErr::Imbalanced => !(nshape(*self) && -1 <= self.right_ht - self.left_ht <= 1),
            _ => false,
        },
    decreases *self
@begin
    proof {
        node(self.left); node(self.right);
        lemma_chk(els(self.left), (self.key, self.val), els(self.right));
        lemma_cached_if(self.left); lemma_cached_if(self.right);
        reveal(all_gt);
    }
#fn chk -> r
    requires cached(*opt_node), ht(*opt_node) <= 101, els(*opt_node).len() <= usize::MAX, lawful::<K>(),
    ensures
        r is Ok ==> {
            &&& wf(*opt_node) && from(greatest, els(*opt_node))
            &&& (r->Ok_0).0 == els(*opt_node).len()
            &&& oval((r->Ok_0).1) == upto(greatest, els(*opt_node))
        },
        r is Err ==> match r->Err_0 {
            MapErr::Unsorted => !sorted(els(*opt_node)) || !from(greatest, els(*opt_node)),
            MapErr::Imbalanced => !shape(*opt_node),
            _ => false,
        },
    decreases *opt_node
@begin
    broadcast use lemma_sorted_empty;
    proof { reveal(all_gt); node(*opt_node); }
#fn AvlMap::chk -> r
    requires cached(self.root), ht(self.root) <= 101, mels(*self).len() <= usize::MAX, lawful::<K>(),
    ensures
        r is Ok ==> mwf(*self),
        r is Err ==> match r->Err_0 {
            MapErr::BadLen(n) => wf(self.root) && n == mels(*self).len(),
            MapErr::Unsorted => !sorted(mels(*self)),
            MapErr::Imbalanced => !shape(self.root),
            _ => false,
        },
#raw
// `yields` of a map is what running its `into_iter` to the end gives (`drain_map`)
#[verifier::external]
impl<K, V> IntoIterator for AvlMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter { unimplemented!() }
}
broadcast axiom fn axiom_yields_map<K, V>(m: AvlMap<K, V>)
    requires mels(m).len() <= m.len,
    ensures #[trigger] yields::<AvlMap<K, V>>(m) == mels(m);
fn drain_map<K: Clone + Ord, V: Clone>(m: AvlMap<K, V>) -> (r: Vec<(K, V)>)
    requires mels(m).len() <= m.len,
    ensures r@ == mels(m),
{
    let mut v: Vec<(K, V)> = Vec::new();
    let mut it = m.into_iter();
    proof { assert(v@ + mels(m) =~= mels(m)); }
    loop
        invariant
            ready(it.iter),
            mels(m) == v@ + flat(it.iter.work@),
        ensures mels(m) == v@,
        decreases flat(it.iter.work@).len(),
    {
        let ghost w0 = it.iter.work@;
        let ghost v0 = v@;
        match it.next() {
            Some(x) => {
                v.push(x);
                proof { assert(v0 + (seq![x] + flat(it.iter.work@)) =~= v@ + flat(it.iter.work@)); }
            }
            None => { proof { lemma_ends(it.iter.work@); assert(v@ + flat(w0) =~= v@); } break; }
        }
    }
    v
}
#raw
#[verifier::external_body]
fn verr_msg(e: MapErr) -> (r: String)
    ensures e is Unsorted ==> unsorted_msg(r),
{ format!("{e:?}") }
#[verifier::external_body]
fn vunsorted_msg() -> (r: String)
    ensures unsorted_msg(r),
{ "Unsorted".to_string() }
#const MAX_HALF_LEN -> impl<K, V> AvlMap<K, V>
    ensures r == 2,
#fn Map@AvlMap::check_half -> r
    requires hwhole(*h, hseq(*h).len() as int), lawful::<K>(),
    ensures match r { Ok(n) => n == hseq(*h).len(), Err(e) => unsorted_msg(e) },
@sub ?(\w+) >= (&[\w.]+) => vge(\1, \2)
@begin
    broadcast use group_order;
    proof { lemma_cached_if(h.h.0); lemma_hlim_ok(hseq(*h).len() as int); lemma_chk(els(h.h.0), (h.h.1, h.h.2), Seq::empty());
        assert(hseq(*h) =~= cat(els(h.h.0), (h.h.1, h.h.2), Seq::empty())); }
@sub ?format!\("\{e:\?\}"\) => verr_msg(e)
@sub ?"Unsorted"\.to_string\(\) => vunsorted_msg()
#fn Map@AvlMap::make_half -> r
    requires 1 <= old(elems)@.len() <= 2,
    ensures
        hseq(r) == old(elems)@, final(elems)@.len() == 0,
        hwhole(r, old(elems)@.len() as int),
@sub ?\(1\.\.=([^)]*)\)\.contains\(&([\w.]+\(\))\) => (1 <= \2 && \2 <= (\1))
@begin
    let ghost s0 = elems@;
    proof { node(None::<Arc<Node<K, V>>>); reveal_with_fuel(hlim, 3); }
@tail
    proof {
        node(__r.h.0); node(None::<Arc<Node<K, V>>>);
        if __r.h.0 is Some { node(lf(__r.h.0)); node(rt(__r.h.0)); }
        assert(hseq(__r) =~= s0);
    }
#fn Map@AvlMap::make_whole -> r
    requires lawful::<K>(), hpart(h, len as int), hseq(h).len() < usize::MAX,
    ensures mwf(r), mels(r) == m_ext(Seq::<(K, V)>::empty(), hseq(h)),
@begin
    broadcast use {axiom_yields_map, lemma_sorted_empty};
    proof {
        lemma_hlim_ok(len as int);
        node(None::<Arc<Node<K, V>>>);
        lemma_one_more(els(h.h.0), h.h.1, h.h.2);
        lemma_ext(Seq::<(K, V)>::empty(), els(h.h.0));
    }
#fn Map@AvlMap::stitch -> r
    requires hwhole(lf, hseq(lf).len() as int),
        exists|b: int| #[trigger] hpart(rt, b) && b <= hseq(lf).len() <= b + 1 && 2 < hseq(lf).len() + b <= usize::MAX,
    ensures
        hseq(r) == hseq(lf) + hseq(rt),
        forall|b: int| #[trigger] hpart(rt, b) && b <= hseq(lf).len() <= b + 1 && 2 < hseq(lf).len() + b <= usize::MAX
            ==> hpart(r, hseq(lf).len() + b) && (hwhole(rt, b) ==> hwhole(r, hseq(lf).len() + b)),
@begin
    let ghost a = hseq(lf).len() as int;
    let ghost p0 = lf;
    let ghost p1 = rt;
    proof {
        lemma_hlim_ok(a);
        lemma_cached_if(lf.h.0); lemma_cached_if(rt.h.0);
        assert forall|b: int| #[trigger] hpart(rt, b) && b <= a <= b + 1 && 2 < a + b <= usize::MAX implies
            hlim(b) <= hlim(a) <= hlim(b) + 1 && hlim(a + b) == 1 + hlim(a) && 0 <= hlim(b) <= 64 by {
            lemma_hlim_ok(b);
            lemma_hlim_step(b);
            assert(a + b - (a + b) / 2 == a);
        }
    }
@tail
    proof {
        node(__r.h.0);
        assert(hseq(__r) =~= hseq(p0) + hseq(p1));
    }
#raw
// the contracts above are those of the trait: each method of this impl is the
// extracted one, called by name
impl<K: Clone + Ord, V: Clone> Map for AvlMap<K, V> {
    type Key = K;
    type Value = V;
    type Half = Half<K, V>;
    spec fn ents(&self) -> Seq<(K, V)> { mels(*self) }
    spec fn good(&self) -> bool { mwf(*self) }
    spec fn mhl() -> int { 2 }
    spec fn sane() -> bool { true }
    proof fn lemma_good(&self) { lemma_mwf(*self); }
    spec fn hels(h: Half<K, V>) -> Seq<(K, V)> { hseq(h) }
    spec fn part(h: Half<K, V>, l: int) -> bool { hpart(h, l) }
    spec fn whole(h: Half<K, V>, l: int) -> bool { hwhole(h, l) }
    proof fn lemma_half(h: Half<K, V>, l: int, m: int) { lemma_hlim_mono(l, m); lemma_cached_if(h.h.0); lemma_hlim_ok(l); }
    fn max_half_len() -> usize { AvlMap::<K, V>::MAX_HALF_LEN_() }
    #[verifier::external_body]
    fn check(&self) -> Result<(), String> { unimplemented!() }
    fn check_half(h: &Half<K, V>) -> Result<usize, String> { AvlMap::<K, V>::check_half(h) }
    fn contains_key_<Q: Ord>(&mut self, key: &Q) -> bool where K: Borrow<Q> { AvlMap::<K, V>::contains_key_(self, key) }
    fn get_mut_<Q: Ord>(&mut self, key: &Q) -> Option<&mut V> where K: Borrow<Q> { AvlMap::<K, V>::get_mut_(self, key) }
    fn insert_(&mut self, key: K, val: V) -> Option<V> { proof { lemma_mwf(*self); } AvlMap::<K, V>::insert_(self, key, val) }
    fn new_() -> Self { AvlMap::<K, V>::new_() }
    fn make_half(elems: &mut Vec<(K, V)>) -> Half<K, V> { AvlMap::<K, V>::make_half(elems) }
    fn make_whole(h: Half<K, V>, len: usize) -> Self { AvlMap::<K, V>::make_whole(h, len) }
    fn stitch(lf: Half<K, V>, rt: Half<K, V>) -> Half<K, V> { AvlMap::<K, V>::stitch(lf, rt) }
}
#include serdeout.inc
#fn IntoIterator@AvlMap::into_iter -> r +where=K:Ord +nth=1 +name=into_iter_ref
    requires mwf(*self),
    ensures over(r.iter, mels(*self)),
#raw
// what `for x in &map` goes through
fn drain_ref<'a, K: Clone + Ord, V: Clone>(m: &'a AvlMap<K, V>) -> (r: Vec<(&'a K, &'a V)>)
    requires mwf(*m),
    ensures
        r@.len() == mels(*m).len(),
        forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == mels(*m)[i].0 && *r@[i].1 == mels(*m)[i].1,
{
    let mut v: Vec<(&'a K, &'a V)> = Vec::new();
    let mut it = m.into_iter_ref();
    let ghost mut w: Seq<(K, V)> = Seq::empty();
    proof { assert(w + mels(*m) =~= mels(*m)); }
    loop
        invariant
            ready(it.iter), it.iter.len == flat(it.iter.work@).len(),
            mels(*m) == w + flat(it.iter.work@),
            w.len() == v@.len(),
            forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] v@[i]).0 == w[i].0 && *v@[i].1 == w[i].1,
        ensures mels(*m) == w,
        decreases flat(it.iter.work@).len(),
    {
        let ghost w0 = it.iter.work@;
        let ghost v0 = w;
        match it.next() {
            Some(x) => {
                v.push(x);
                proof { w = w.push((*x.0, *x.1)); assert(v0 + (seq![(*x.0, *x.1)] + flat(it.iter.work@)) =~= w + flat(it.iter.work@)); }
            }
            None => { proof { lemma_ends(it.iter.work@); assert(w + flat(w0) =~= w); } break; }
        }
    }
    v
}
#subst \bserde::ser::Serializer\b => VSerializer
#subst \bserde::ser::Serialize\b => Sized
#subst \buse\s+serde::ser::SerializeMap; => {}
#fn Serialize@AvlMap::serialize -> r +where=K:Clone+Ord,V:Clone
    requires mwf(*self),
    ensures r is Ok ==> <S::Map as VSerMap>::made(r->Ok_0) == toks(mels(*self)) && <S::Map as VSerMap>::said(r->Ok_0) == Some(mels(*self).len() as usize),
@sub \bin self(?:\.(?:iter|into_iter)\(\))?(?=\s*\{) => in it__: drain_ref(self)
@begin
    let ghost s0 = mels(*self);
    proof { lemma_toks(s0); }
@loop 0
    invariant
        it__.seq().len() == s0.len(), 0 <= it__.index@ <= s0.len(), s0 == mels(*self),
        forall|i: int| 0 <= i < s0.len() ==> *(#[trigger] it__.seq()[i]).0 == s0[i].0 && *it__.seq()[i].1 == s0[i].1,
        map.put() == toks(s0.take(it__.index@)), map.claim() == Some(s0.len() as usize),
@body 0
    proof { lemma_toks(s0); }
#raw
// what a map serializes to is what it is rebuilt from
proof fn round_trip<K: Ord, V>(m: AvlMap<K, V>)
    requires mwf(m), lawful::<K>(),
    ensures m_ext(Seq::<(K, V)>::empty(), mels(m)) == mels(m),
{
    lemma_mwf(m);
    if mels(m).len() > 0 { let x = mels(m).last(); lemma_one_more(mels(m), x.0, x.1); }
    else { assert(mels(m) =~= Seq::<(K, V)>::empty()); lemma_sorted_empty(Seq::<(K, V)>::empty()); lemma_ext_sorted(Seq::<(K, V)>::empty(), mels(m)); assert(mels(m) + mels(m) =~= mels(m)); }
}
