#source src/lib.rs
#trait Map
@sub trait Map => trait Map: Sized
@sub type Key; => type Key: Clone + Ord;
@sub type Value; => type Value: Clone;
@sub const MAX_HALF_LEN: usize; => fn max_half_len() -> (r: usize) requires Self::sane() ensures r == Self::mhl();
@begin
    // the abstract value and the representation invariant
    spec fn ents(&self) -> Seq<(Self::Key, Self::Value)>;
    spec fn good(&self) -> bool;
    spec fn mhl() -> int;
    // parameters for which the type is usable at all
    spec fn sane() -> bool;
    proof fn lemma_good(&self) requires self.good() ensures sorted(self.ents());
    // the entries of a half, in order
    spec fn hels(h: Self::Half) -> Seq<(Self::Key, Self::Value)>;
    // a half that may stand where one of l entries was announced
    spec fn part(h: Self::Half, l: int) -> bool;
    // a half of exactly the l entries announced
    spec fn whole(h: Self::Half, l: int) -> bool;
    proof fn lemma_half(h: Self::Half, l: int, m: int)
        requires 0 < l <= m <= usize::MAX,
        ensures
            1 <= Self::mhl(),
            Self::whole(h, l) ==> Self::part(h, l) && Self::hels(h).len() == l,
            Self::part(h, l) ==> Self::part(h, m) && 1 <= Self::hels(h).len() <= l;
@method contains_key_ -> r
        requires old(self).good(), lawful_q::<Self::Key, Q>(),
        ensures
            r == has_key(old(self).ents(), qcut::<Self::Key, Q>(*key)),
            final(self).ents() == old(self).ents(), final(self).good(),
@method get_mut_ -> r
        requires old(self).good(), lawful_q::<Self::Key, Q>(),
        ensures
            r is Some <==> has_key(old(self).ents(), qcut::<Self::Key, Q>(*key)),
            r is None ==> final(self).ents() == old(self).ents(),
            r is Some ==> *(r->0) == (m_get(old(self).ents(), qcut::<Self::Key, Q>(*key))->0).1
                && final(self).ents() == m_upd(old(self).ents(), qcut::<Self::Key, Q>(*key), *final(r->0)),
            final(self).good(),
@method insert_ -> r
        requires old(self).good(), lawful::<Self::Key>(), old(self).ents().len() < usize::MAX,
        ensures
            final(self).good(),
            final(self).ents() == m_ins(old(self).ents(), key, val),
            r == val_of(m_get(old(self).ents(), kcut(key))),
@method new_ -> r
        requires Self::sane(),
        ensures r.good(), r.ents() == Seq::<(Self::Key, Self::Value)>::empty(),
@method check_half -> r
        requires Self::whole(*h, Self::hels(*h).len() as int), lawful::<Self::Key>(),
        ensures match r { Ok(n) => n == Self::hels(*h).len(), Err(e) => unsorted_msg(e) },
@method make_half -> r
        requires Self::sane(), 1 <= old(elems)@.len() <= Self::mhl(),
        ensures
            Self::hels(r) == old(elems)@, final(elems)@.len() == 0,
            Self::whole(r, old(elems)@.len() as int),
@method stitch -> r
        // lf is all of the greater half of what was announced, rt is (part of) the other half
        requires Self::sane(), Self::whole(lf, Self::hels(lf).len() as int),
            exists|b: int| #[trigger] Self::part(rt, b) && b <= Self::hels(lf).len() <= b + 1
                && Self::mhl() < Self::hels(lf).len() + b <= usize::MAX,
        ensures
            Self::hels(r) == Self::hels(lf) + Self::hels(rt),
            forall|b: int| #[trigger] Self::part(rt, b) && b <= Self::hels(lf).len() <= b + 1
                && Self::mhl() < Self::hels(lf).len() + b <= usize::MAX
                ==> Self::part(r, Self::hels(lf).len() + b) && (Self::whole(rt, b) ==> Self::whole(r, Self::hels(lf).len() + b)),
@method make_whole -> r
        requires
            Self::sane(), lawful::<Self::Key>(), Self::part(h, len as int), Self::hels(h).len() < usize::MAX,
        ensures r.good(), r.ents() == m_ext(Seq::<(Self::Key, Self::Value)>::empty(), Self::hels(h)),
#raw
// the text of the error for keys out of order
pub uninterp spec fn unsorted_msg(s: String) -> bool;
