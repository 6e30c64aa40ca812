#source src/lib.rs
#subst Deserialize<'de> => Clone
#subst MapAccess<'de> => MapAccess
#subst SeqAccess<'de> => SeqAccess
#subst fn\(\)\s*->\s*M\b => M
#subst \bMAP::MAX_HALF_LEN => MAP::max_half_len()
#subst \bdebug_assert!\( => vassert!(
#subst \bassert!\( => vassert!(
#item enum StitchErr
#raw
// Where a map is deserialized from.  Assumed: a reader of this shape yields
// the entries pending, in order, then None for ever, or it fails.
pub trait MapAccess: Sized {
    type Error;
    spec fn pend<K, V>(&self) -> Seq<(K, V)>;
    spec fn fails(&self) -> bool;
    fn next_entry<K, V>(&mut self) -> (r: Result<Option<(K, V)>, Self::Error>)
        ensures
            final(self).fails() == old(self).fails(),
            match r {
                Ok(Some(e)) => old(self).pend::<K, V>().len() > 0 && e == old(self).pend::<K, V>()[0]
                    && final(self).pend::<K, V>() == old(self).pend::<K, V>().skip(1),
                Ok(None) => old(self).pend::<K, V>().len() == 0 && !old(self).fails() && final(self).pend::<K, V>() == old(self).pend::<K, V>(),
                Err(_) => old(self).pend::<K, V>().len() == 0 && old(self).fails(),
            };
    // the hint may be wrong
    fn size_hint(&self) -> Option<usize>;
}
#[verifier::external_body]
fn is_unsorted_msg(e: &String) -> (r: bool)
    ensures r == unsorted_msg(*e)
{ e == "Unsorted" }
#prop C13
#item struct MapVisitor
#fn Visitor@MapVisitor::visit_map>build_map_by_halves -> r +noiso
    requires
        MAP::sane(), len > 0, old(scratch)@.len() == 0,
    ensures
        final(access).fails() == old(access).fails(),
        match r {
            Ok(h) => {
                &&& MAP::whole(h, len as int) && final(scratch)@.len() == 0
                &&& old(access).pend::<MAP::Key, MAP::Value>() == MAP::hels(h) + final(access).pend::<MAP::Key, MAP::Value>()
            }
            Err(StitchErr::TooFewElems(o)) => {
                &&& !old(access).fails()
                &&& match o {
                    Some(h) => MAP::part(h, len as int) && old(access).pend::<MAP::Key, MAP::Value>() == MAP::hels(h),
                    None => old(access).pend::<MAP::Key, MAP::Value>().len() == 0,
                }
            }
            Err(StitchErr::Other(_)) => old(access).fails(),
        },
    decreases len
@begin
    let ghost p0 = old(access).pend::<MAP::Key, MAP::Value>();
    proof {
        assert forall|h: MAP::Half, l: int| #![trigger MAP::whole(h, l)] #![trigger MAP::part(h, l)] 0 < l <= len implies
            1 <= MAP::mhl()
            && (MAP::whole(h, l) ==> MAP::part(h, l) && MAP::hels(h).len() == l)
            && (MAP::part(h, l) ==> MAP::part(h, len as int) && 1 <= MAP::hels(h).len() <= l) by { MAP::lemma_half(h, l, len as int); }
        MAP::lemma_half(arbitrary(), 1, 1);
    }
@sub for _ in 0\.\.len => for i__ in 0..len
@loop 0
    invariant
        access.fails() == old(access).fails(),
        p0 == scratch@ + access.pend::<MAP::Key, MAP::Value>(),
        scratch@.len() == i__, 0 < len <= MAP::mhl(), MAP::sane(),
@body 0
    proof {
        assert(access.pend::<MAP::Key, MAP::Value>().len() == 0 ==> p0 =~= scratch@);
    }
@after ?assert!\(scratch\.is_empty\(\)\);
    proof { assert(scratch@ + access.pend::<MAP::Key, MAP::Value>() =~= p0); }
#fn Visitor@MapVisitor::visit_map -> r +noiso
    requires
        MAP::sane(), lawful::<MAP::Key>(), access.pend::<MAP::Key, MAP::Value>().len() < usize::MAX,
    ensures
        r is Err <==> access.fails(),
        r is Ok ==> (r->Ok_0).good()
            && (r->Ok_0).ents() == m_ext(Seq::<(MAP::Key, MAP::Value)>::empty(), access.pend::<MAP::Key, MAP::Value>()),
@begin
    let ghost p0 = access.pend::<MAP::Key, MAP::Value>();
    let ghost f0 = access.fails();
    let ghost e0 = Seq::<(MAP::Key, MAP::Value)>::empty();
    proof {
        assert forall|h: MAP::Half, l: int| #![trigger MAP::whole(h, l)] #![trigger MAP::part(h, l)] 0 < l <= usize::MAX implies
            (MAP::whole(h, l) ==> MAP::part(h, l) && MAP::hels(h).len() == l)
            && (MAP::part(h, l) ==> 1 <= MAP::hels(h).len() <= l) by { MAP::lemma_half(h, l, l); }
        assert(p0.take(p0.len() as int) =~= p0);
        assert(p0.take(0) =~= e0);
        assert(p0.skip(0) =~= p0);
        assert forall|s: Seq<(MAP::Key, MAP::Value)>, t: Seq<(MAP::Key, MAP::Value)>| #![trigger s + t]
            (s + t).take(s.len() as int) == s && (s + t).skip(s.len() as int) == t by {
            assert((s + t).take(s.len() as int) =~= s);
            assert((s + t).skip(s.len() as int) =~= t);
        }
    }
@sub e == "Unsorted" => is_unsorted_msg(&e)
@loop 0
    invariant
        access.fails() == f0, MAP::sane(), lawful::<MAP::Key>(), map.good(), p0.len() < usize::MAX,
        access.pend::<MAP::Key, MAP::Value>().len() <= p0.len(),
        access.pend::<MAP::Key, MAP::Value>() == p0.skip(p0.len() - access.pend::<MAP::Key, MAP::Value>().len()),
        map.ents() == m_ext(Seq::<(MAP::Key, MAP::Value)>::empty(), p0.take(p0.len() - access.pend::<MAP::Key, MAP::Value>().len())),
    decreases access.pend::<MAP::Key, MAP::Value>().len()
@body 0
    proof {
        let n = p0.len() - access.pend::<MAP::Key, MAP::Value>().len() - 1;
        lemma_ext_step(Seq::<(MAP::Key, MAP::Value)>::empty(), p0, n);
        lemma_sorted_empty(Seq::<(MAP::Key, MAP::Value)>::empty());
        lemma_ext(Seq::<(MAP::Key, MAP::Value)>::empty(), p0.take(n));
    }
