#raw
// the type () in `Map<T, ()>` (this Verus knows no `Clone for ()`)
#[derive(Clone, Copy, Default)]
pub struct Unit;
impl PartialEqSpecImpl for Unit {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Unit) -> bool { true }
}
impl PartialEq for Unit { fn eq(&self, o: &Unit) -> (r: bool) { true } }
impl Eq for Unit {}
impl PartialOrdSpecImpl for Unit {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Unit) -> Option<Ordering> { Some(Ordering::Equal) }
}
impl PartialOrd for Unit { fn partial_cmp(&self, o: &Unit) -> (r: Option<Ordering>) { Some(Ordering::Equal) } }
impl OrdSpecImpl for Unit {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Unit) -> Ordering { Ordering::Equal }
}
impl Ord for Unit { fn cmp(&self, o: &Unit) -> (r: Ordering) { Ordering::Equal } }
// ---------------------------------------------------------------------------
// Iterators over sets, and the lazy set operations of src/lib.rs.
// ---------------------------------------------------------------------------
// std::iter::Peekable.  Assumed contracts.
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
struct VPeekable<I: VIter> { i: I, peeked: Option<Option<I::Item>> }
impl<I: VIter> VPeekable<I> {
    uninterp spec fn todo(&self) -> Seq<I::Item>;
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Option<&I::Item>)
        ensures
            final(self).todo() == old(self).todo(),
            r is None <==> old(self).todo().len() == 0,
            r is Some ==> *(r->0) == old(self).todo()[0],
    {
        if self.peeked.is_none() { self.peeked = Some(self.i.next()); }
        self.peeked.as_ref().unwrap().as_ref()
    }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<I::Item>)
        ensures
            match r {
                Some(x) => old(self).todo().len() > 0 && x == old(self).todo()[0] && final(self).todo() == old(self).todo().skip(1),
                None => old(self).todo().len() == 0 && final(self).todo().len() == 0,
            }
    {
        match self.peeked.take() { Some(x) => x, None => self.i.next() }
    }
}
#[verifier::external_body]
fn vpeekable<I: VIter>(i: I) -> (r: VPeekable<I>)
    requires i.ok(),
    ensures r.todo() == i.todo(),
{ VPeekable { i, peeked: None } }

// both sequences, in step
spec fn zips<T: Ord>(a: Seq<T>, b: Seq<T>) -> Seq<(Option<T>, Option<T>)>
    decreases a.len() + b.len()
{
    if a.len() == 0 && b.len() == 0 { Seq::empty() }
    else if a.len() == 0 { seq![(None::<T>, Some(b[0]))] + zips(a, b.skip(1)) }
    else if b.len() == 0 { seq![(Some(a[0]), None::<T>)] + zips(a.skip(1), b) }
    else { match a[0].cmp_spec(&b[0]) {
        Less => seq![(Some(a[0]), None::<T>)] + zips(a.skip(1), b),
        Equal => seq![(Some(a[0]), Some(b[0]))] + zips(a.skip(1), b.skip(1)),
        Greater => seq![(None::<T>, Some(b[0]))] + zips(a, b.skip(1)),
    } }
}
proof fn lemma_zips<T: Ord>(a: Seq<T>, b: Seq<T>)
    ensures ({
        let z = zips(a, b);
        &&& z.len() == 0 <==> a.len() == 0 && b.len() == 0
        &&& z.len() > 0 ==> match z[0] {
            (Some(x), None) => a.len() > 0 && x == a[0] && z.skip(1) == zips(a.skip(1), b) && (b.len() > 0 ==> a[0].cmp_spec(&b[0]) is Less),
            (None, Some(y)) => b.len() > 0 && y == b[0] && z.skip(1) == zips(a, b.skip(1)) && (a.len() > 0 ==> a[0].cmp_spec(&b[0]) is Greater),
            (Some(x), Some(y)) => a.len() > 0 && b.len() > 0 && x == a[0] && y == b[0]
                && z.skip(1) == zips(a.skip(1), b.skip(1)) && a[0].cmp_spec(&b[0]) is Equal,
            (None, None) => false,
        }
    }),
{
    let z = zips(a, b);
    if z.len() > 0 {
        assert(z.skip(1) =~= zips(a.skip(1), b) || z.skip(1) =~= zips(a, b.skip(1)) || z.skip(1) =~= zips(a.skip(1), b.skip(1))) by {
            if a.len() == 0 { assert(z.skip(1) =~= zips(a, b.skip(1))); }
            else if b.len() == 0 { assert(z.skip(1) =~= zips(a.skip(1), b)); }
            else { match a[0].cmp_spec(&b[0]) {
                Less => { assert(z.skip(1) =~= zips(a.skip(1), b)); },
                Equal => { assert(z.skip(1) =~= zips(a.skip(1), b.skip(1))); },
                Greater => { assert(z.skip(1) =~= zips(a, b.skip(1))); },
            } }
        }
        if a.len() == 0 { assert(z.skip(1) =~= zips(a, b.skip(1))); }
        else if b.len() == 0 { assert(z.skip(1) =~= zips(a.skip(1), b)); }
        else { match a[0].cmp_spec(&b[0]) {
            Less => { assert(z.skip(1) =~= zips(a.skip(1), b)); },
            Equal => { assert(z.skip(1) =~= zips(a.skip(1), b.skip(1))); },
            Greater => { assert(z.skip(1) =~= zips(a, b.skip(1))); },
        } }
    }
}

// what policy P keeps of a pair
spec fn keep1<T>(x: (Option<T>, Option<T>), p: u32) -> Option<T> {
    match x {
        (Some(a), None) => if p & 4 != 0 { Some(a) } else { None },
        (None, Some(b)) => if p & 1 != 0 { Some(b) } else { None },
        (Some(a), Some(b)) => if p & 2 != 0 { Some(b) } else { None },
        (None, None) => None,
    }
}
spec fn keeps<T>(z: Seq<(Option<T>, Option<T>)>, p: u32) -> Seq<T>
    decreases z.len()
{
    if z.len() == 0 { Seq::empty() }
    else { match keep1(z[0], p) {
        Some(x) => seq![x] + keeps(z.skip(1), p),
        None => keeps(z.skip(1), p),
    } }
}
spec fn set_op<T: Ord>(a: Seq<T>, b: Seq<T>, p: u32) -> Seq<T> { keeps(zips(a, b), p) }

// strictly increasing
#[verifier::opaque]
spec fn ups<T: Ord>(s: Seq<T>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(#[trigger] s[i], #[trigger] s[j])
}
spec fn eqv<T: Ord>(a: T, b: T) -> bool { a.cmp_spec(&b) is Equal }
// x is in s (up to the order's equality)
spec fn mem<T: Ord>(s: Seq<T>, x: T) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] eqv(s[i], x)
}
spec fn in_op(p: u32, a: bool, b: bool) -> bool {
    (a && !b && p & 4 != 0) || (b && !a && p & 1 != 0) || (a && b && p & 2 != 0)
}
// r is the set operation P of a and b, in increasing order
spec fn is_op<T: Ord>(r: Seq<T>, a: Seq<T>, b: Seq<T>, p: u32) -> bool {
    &&& ups(r)
    &&& forall|x: T| #[trigger] mem(r, x) <==> in_op(p, mem(a, x), mem(b, x))
}
proof fn lemma_mem_head<T: Ord>(s: Seq<T>, x: T)
    requires s.len() > 0,
    ensures mem(s, x) <==> eqv(s[0], x) || mem(s.skip(1), x),
{
    let t = s.skip(1);
    if mem(s, x) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] eqv(s[i], x);
        if i > 0 { assert(eqv(t[i - 1], x)); }
    }
    if mem(t, x) {
        let i = choose|i: int| 0 <= i < t.len() && #[trigger] eqv(t[i], x);
        assert(eqv(s[i + 1], x));
    }
}
proof fn lemma_ups_head<T: Ord>(s: Seq<T>)
    requires s.len() > 0, ups(s), lawful::<T>(),
    ensures
        ups(s.skip(1)),
        forall|x: T| #[trigger] mem(s.skip(1), x) ==> lt(s[0], x),
        forall|x: T| mem(s, x) ==> !(#[trigger] s[0].cmp_spec(&x) is Greater),
        s.len() > 1 ==> lt(s[0], s.skip(1)[0]),
{
    reveal(ups);
    let t = s.skip(1);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies lt(#[trigger] t[i], #[trigger] t[j]) by {
        assert(lt(s[i + 1], s[j + 1]));
    }
    assert forall|x: T| #[trigger] mem(t, x) implies lt(s[0], x) by {
        let i = choose|i: int| 0 <= i < t.len() && #[trigger] eqv(t[i], x);
        assert(lt(s[0], s[i + 1]));
        law_trans(s[0], t[i], x);
    }
    assert forall|x: T| mem(s, x) implies !(#[trigger] s[0].cmp_spec(&x) is Greater) by {
        lemma_mem_head(s, x);
    }
}
// the elements of s are at least lo
spec fn from_on<T: Ord>(s: Seq<T>, lo: T) -> bool { forall|x: T| #[trigger] mem(s, x) ==> lt(lo, x) }

proof fn lemma_op<T: Ord>(a: Seq<T>, b: Seq<T>, p: u32)
    requires ups(a), ups(b), lawful::<T>(),
    ensures is_op(set_op(a, b, p), a, b, p),
    decreases a.len() + b.len()
{
    let z = zips(a, b);
    let r = set_op(a, b, p);
    lemma_zips(a, b);
    if z.len() == 0 {
        assert(ups(r)) by { reveal(ups); }
    } else {
        let k = keep1(z[0], p);
        let (ta, tb) = match z[0] {
            (Some(_), None) => (a.skip(1), b),
            (None, Some(_)) => (a, b.skip(1)),
            _ => (a.skip(1), b.skip(1)),
        };
        let h = match z[0] { (Some(x), _) => x, (None, Some(y)) => y, _ => a[0] };
        if a.len() > 0 { lemma_ups_head(a); }
        if b.len() > 0 { lemma_ups_head(b); }
        lemma_op(ta, tb, p);
        let s = set_op(ta, tb, p);
        assert(z.skip(1) == zips(ta, tb));
        // everything left is above the head
        assert forall|x: T| mem(ta, x) || mem(tb, x) implies #[trigger] lt(h, x) by {
            if a.len() > 0 && b.len() > 0 {
                law_flip(a[0], b[0]);
                law_trans(a[0], b[0], x);
                law_trans(b[0], a[0], x);
            }
            if mem(ta, x) && a.len() > 0 { lemma_mem_head(a, x); law_flip(a[0], x); }
            if mem(tb, x) && b.len() > 0 { lemma_mem_head(b, x); law_flip(b[0], x); }
        }
        assert forall|x: T| #[trigger] mem(r, x) <==> in_op(p, mem(a, x), mem(b, x)) by {
            lemma_op_mem(a, b, p, x);
        }
        assert(ups(r)) by {
            match k {
                None => { assert(r == s); },
                Some(e) => {
                    assert(r =~= seq![e] + s);
                    reveal(ups);
                    assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt(#[trigger] r[i], #[trigger] r[j]) by {
                        assert(r[j] == s[j - 1]);
                        if i > 0 { assert(r[i] == s[i - 1]); }
                        else {
                            law_flip(s[j - 1], s[j - 1]);
                            assert(eqv(s[j - 1], s[j - 1]));
                            assert(mem(s, s[j - 1]));
                            assert(lt(h, s[j - 1]));
                            if e != h { law_flip(h, e); law_trans(e, h, s[j - 1]); }
                        }
                    }
                },
            }
        }
    }
}
proof fn lemma_op_mem<T: Ord>(a: Seq<T>, b: Seq<T>, p: u32, x: T)
    requires ups(a), ups(b), lawful::<T>(), zips(a, b).len() > 0,
        ({
            let (ta, tb) = match zips(a, b)[0] {
                (Some(_), None) => (a.skip(1), b),
                (None, Some(_)) => (a, b.skip(1)),
                _ => (a.skip(1), b.skip(1)),
            };
            is_op(set_op(ta, tb, p), ta, tb, p)
        }),
    ensures mem(set_op(a, b, p), x) <==> in_op(p, mem(a, x), mem(b, x)),
{
    let z = zips(a, b);
    let r = set_op(a, b, p);
    lemma_zips(a, b);
    let k = keep1(z[0], p);
    let (ta, tb) = match z[0] {
        (Some(_), None) => (a.skip(1), b),
        (None, Some(_)) => (a, b.skip(1)),
        _ => (a.skip(1), b.skip(1)),
    };
    let s = set_op(ta, tb, p);
    assert(z.skip(1) == zips(ta, tb));
    assert(mem(s, x) <==> in_op(p, mem(ta, x), mem(tb, x)));
    if a.len() > 0 { lemma_ups_head(a); lemma_mem_head(a, x); law_flip(a[0], x); }
    if b.len() > 0 { lemma_ups_head(b); lemma_mem_head(b, x); law_flip(b[0], x); }
    if a.len() > 0 && b.len() > 0 {
        law_flip(a[0], b[0]);
        law_trans(a[0], b[0], x);
        law_trans(b[0], a[0], x);
    }
    match k {
        None => { assert(r == s); },
        Some(e) => {
            assert(r =~= seq![e] + s);
            assert(r.skip(1) =~= s);
            lemma_mem_head(r, x);
        },
    }
}
#source src/lib.rs
#subst \bstd::iter::Peekable< => VPeekable<
#subst \b(lhs|rhs)\.peekable\(\) => vpeekable(\1)
#subst \bIterator\b => VIter
#subst \bstd::cmp::Ordering:: => Ordering::
#item struct SortedMergeIter +attr=verifier::reject_recursive_types(I)
#item struct SetOpIter +attr=verifier::reject_recursive_types(I)
#item enum KeepFlags
#fn SortedMergeIter::new -> r
    requires lhs.ok(), rhs.ok(),
    ensures r.lhs.todo() == lhs.todo(), r.rhs.todo() == rhs.todo(),
#fn Iterator@SortedMergeIter::next -> r
    requires lawful::<T>(),
    ensures ({
        let z = zips(old(self).lhs.todo(), old(self).rhs.todo());
        match r {
            Some(x) => z.len() > 0 && x == z[0] && zips(final(self).lhs.todo(), final(self).rhs.todo()) == z.skip(1),
            None => z.len() == 0 && zips(final(self).lhs.todo(), final(self).rhs.todo()).len() == 0,
        }
    }),
@begin
    proof { lemma_zips(self.lhs.todo(), self.rhs.todo()); }
#raw
impl<T: Ord, I: VIter<Item = T>, const P: u32> SetOpIter<I, P> {
    spec fn pend(&self) -> Seq<T> { set_op(self.0.lhs.todo(), self.0.rhs.todo(), P) }
}
#fn SetOpIter::new -> r
    requires lhs.ok(), rhs.ok(),
    ensures r.0.lhs.todo() == lhs.todo(), r.0.rhs.todo() == rhs.todo(),
#fn Iterator@SetOpIter::next -> r
    requires lawful::<T>(),
    ensures
        match r {
            Some(x) => old(self).pend().len() > 0 && x == old(self).pend()[0] && final(self).pend() == old(self).pend().skip(1),
            None => old(self).pend().len() == 0 && final(self).pend().len() == 0,
        },
@loop 0
    invariant self.pend() == old(self).pend(), lawful::<T>(),
    decreases zips(self.0.lhs.todo(), self.0.rhs.todo()).len(),
@body 0
    let ghost z = zips(self.0.lhs.todo(), self.0.rhs.todo());
    proof {
        if z.len() > 0 {
            match keep1(z[0], P) {
                Some(x) => { assert((seq![x] + keeps(z.skip(1), P)).skip(1) =~= keeps(z.skip(1), P)); },
                None => {},
            }
        }
    }
