#raw
// references to the elements
spec fn drefs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }
proof fn lemma_drefs<'a, T: 'a>(s: Seq<T>)
    ensures
        drefs::<T>(s).len() == s.len(),
        forall|i: int| #![trigger drefs::<T>(s)[i]] #![trigger s[i]] 0 <= i < s.len() ==> *(drefs::<T>(s)[i]) == s[i],
        s.len() > 0 ==> drefs::<T>(s).skip(1) == drefs::<T>(s.skip(1)),
{
    if s.len() > 0 { assert(drefs::<T>(s).skip(1) =~= drefs::<T>(s.skip(1))); }
}
