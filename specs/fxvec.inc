#include fxslots.inc
#item type InlineVecLen
#item struct InlineVec
#raw
// the capacities considered
spec fn cap<const N: usize>() -> bool { 1 <= N < 0x1000_0000 }

// the first `len` slots of both arrays hold values, the others none
spec fn vok<K, V, const N: usize>(v: InlineVec<K, V, N>) -> bool {
    &&& cap::<N>()
    &&& v.keys.s@.len() == N && v.vals.s@.len() == N
    &&& v.len <= N
    &&& full(v.keys.s@, v.len as int)
    &&& full(v.vals.s@, v.len as int)
}
spec fn vk<K, V, const N: usize>(v: InlineVec<K, V, N>) -> Seq<K> { held(v.keys.s@, v.len as int) }
spec fn vv<K, V, const N: usize>(v: InlineVec<K, V, N>) -> Seq<V> { held(v.vals.s@, v.len as int) }
// the pairs held
spec fn vs<K, V, const N: usize>(v: InlineVec<K, V, N>) -> Seq<(K, V)> {
    Seq::new(v.len as nat, |i: int| (v.keys.s@[i]->0, v.vals.s@[i]->0))
}
// t does not decrease along the keys
spec fn vup<K: Ord>(ks: Seq<K>, t: Cut<K>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ks.len() ==> (!(t(#[trigger] ks[i]) is Greater) ==> t(#[trigger] ks[j]) is Less)
}
#prop C14
#fn InlineVec::new -> r
    requires cap::<N>(),
    ensures vok(r), r.len == 0, vs(r) == Seq::<(K, V)>::empty(),
#fn InlineVec::search_keys -> r +where=K:Ord
    requires vok(*self), self.len > 0, lawful_q::<K, Q>(), vup(vk(*self), qcut::<K, Q>(*key)),
    ensures
        match r {
            Ok(i) => i < self.len && qcut::<K, Q>(*key)(vk(*self)[i as int]) is Equal,
            Err(i) => i <= self.len && (0 < i ==> qcut::<K, Q>(*key)(vk(*self)[i - 1]) is Greater)
                && (i < self.len ==> qcut::<K, Q>(*key)(vk(*self)[i as int]) is Less),
        },
@sub \bstd::mem::size_of::<K>\(\)\s*<=\s*std::mem::size_of::<usize>\(\) => vany()
@sub for \((\w+), (\w+)\) in self\.keys\(\)\.iter\(\)\.enumerate\(\) \{ => let ks__ = self.keys(); for \1 in 0..ks__.len() { let \2 = &ks__[\1];
@sub self\.keys\(\)\.binary_search_by_key\(&key, \|k\| k\.borrow\(\)\) => vbinary_search(self.keys(), key)
@loop 0
    invariant
        ks__@ == vk(*self), vok(*self), self.len > 0, lawful_q::<K, Q>(),
        0 < i ==> qcut::<K, Q>(*key)(vk(*self)[i - 1]) is Greater,
#fn InlineVec::clear
    requires vok(*old(self)),
    ensures vok(*final(self)), final(self).len == 0,
@loop 0
    invariant
        self.len == old(self).len, vok(*old(self)),
        self.keys.s@.len() == N, self.vals.s@.len() == N,
        forall|j: int| 0 <= j < i ==> self.keys.s@[j] is None && self.vals.s@[j] is None,
        forall|j: int| i <= j < N ==> self.keys.s@[j] == old(self).keys.s@[j] && self.vals.s@[j] == old(self).vals.s@[j],
#fn InlineVec::insert
    requires vok(*old(self)), idx <= old(self).len, old(self).len < N,
    ensures
        vok(*final(self)), final(self).len == old(self).len + 1,
        vs(*final(self)) == vs(*old(self)).insert(idx as int, kv),
        vk(*final(self)) =~= vk(*old(self)).insert(idx as int, kv.0),
@sub let (\w+) = self\.(keys|vals)\.as_mut_ptr\(\); => let \1 = &mut self.\2;
@sub copy\(\s*(\w+)\.add\(([^()]*)\),\s*\1\.add\(([^()]*)\),\s*([^;]*?),?\s*\); => \1.vmove(\2, \3, \4);
@tail
    proof { assert(vs(*self) =~= vs(*old(self)).insert(idx as int, kv)); }
#fn InlineVec::keys -> r
    requires vok(*self), self.len > 0,
    ensures r@ == vk(*self),
@sub let (\w+): \*const \w+ = self\.(\w+)\[0\]\.assume_init_ref\(\);\s*std::slice::from_raw_parts\(\1, ([^;]*?)\) => self.\2.vsl(\3)
#fn InlineVec::keys_mut -> r
    requires vok(*old(self)), old(self).len > 0,
    ensures
        r@ == vk(*old(self)), final(r)@.len() == old(self).len,
        vok(*final(self)), final(self).len == old(self).len, vk(*final(self)) == final(r)@, vv(*final(self)) == vv(*old(self)),
        vs(*final(self)) =~= Seq::new(old(self).len as nat, |i: int| (final(r)@[i], vs(*old(self))[i].1)),
@sub let (\w+): \*mut \w+ = self\.(\w+)\[0\]\.assume_init_mut\(\);\s*std::slice::from_raw_parts_mut\(\1, ([^;]*?)\) => self.\2.vsl_mut(\3)
#fn InlineVec::elems_mut -> r
    requires vok(*old(self)), old(self).len > 0,
    ensures
        r.0@ == vk(*old(self)), final(r.0)@.len() == old(self).len, r.1@ == vv(*old(self)), final(r.1)@.len() == old(self).len,
        vok(*final(self)), final(self).len == old(self).len, vk(*final(self)) == final(r.0)@, vv(*final(self)) == final(r.1)@,
@sub let (\w+): \*mut \w+ = self\.(\w+)\[0\]\.assume_init_mut\(\);\s*std::slice::from_raw_parts_mut\(\1, ([^;]*?)\) => self.\2.vsl_mut(\3)
#fn InlineVec::len -> r
    ensures r == self.len,
#fn InlineVec::push
    requires vok(*old(self)), old(self).len < N,
    ensures
        vok(*final(self)), final(self).len == old(self).len + 1,
        vs(*final(self)) == vs(*old(self)).push(kv),
        vk(*final(self)) =~= vk(*old(self)).push(kv.0),
@tail
    proof { assert(vs(*self) =~= vs(*old(self)).push(kv)); }
#fn InlineVec::pop -> r
    requires vok(*old(self)), old(self).len > 0,
    ensures
        vok(*final(self)), final(self).len == old(self).len - 1,
        r == vs(*old(self)).last(), vs(*final(self)) == vs(*old(self)).drop_last(),
        r.0 == vk(*old(self)).last(), vk(*final(self)) =~= vk(*old(self)).drop_last(),
@tail
    proof { assert(vs(*self) =~= vs(*old(self)).drop_last()); }
#fn InlineVec::remove -> r
    requires vok(*old(self)), idx < old(self).len,
    ensures
        vok(*final(self)), final(self).len == old(self).len - 1,
        r == vs(*old(self))[idx as int], vs(*final(self)) == vs(*old(self)).remove(idx as int),
        r.0 == vk(*old(self))[idx as int], vk(*final(self)) =~= vk(*old(self)).remove(idx as int),
@sub let (\w+) = self\.(keys|vals)\.as_mut_ptr\(\); => let \1 = &mut self.\2;
@sub copy\(\s*(\w+)\.add\(([^()]*)\),\s*\1\.add\(([^()]*)\),\s*([^;]*?),?\s*\); => \1.vmove(\2, \3, \4);
@tail
    proof { assert(vs(*self) =~= vs(*old(self)).remove(idx as int)); }
#fn InlineVec::vals -> r
    requires vok(*self), self.len > 0,
    ensures r@ == vv(*self),
@sub let (\w+): \*const \w+ = self\.(\w+)\[0\]\.assume_init_ref\(\);\s*std::slice::from_raw_parts\(\1, ([^;]*?)\) => self.\2.vsl(\3)
#fn InlineVec::vals_mut -> r
    requires vok(*old(self)), old(self).len > 0,
    ensures
        r@ == vv(*old(self)), final(r)@.len() == old(self).len,
        vok(*final(self)), final(self).len == old(self).len, vk(*final(self)) == vk(*old(self)), vv(*final(self)) == final(r)@,
        vs(*final(self)) =~= Seq::new(old(self).len as nat, |i: int| (vs(*old(self))[i].0, final(r)@[i])),
@sub let (\w+): \*mut \w+ = self\.(\w+)\[0\]\.assume_init_mut\(\);\s*std::slice::from_raw_parts_mut\(\1, ([^;]*?)\) => self.\2.vsl_mut(\3)
#fn Clone@InlineVec::clone -> r
    requires vok(*self),
    ensures r == *self,
@loop 0
    invariant
        vok(*self), ret.len == 0, ret.keys.s@.len() == N, ret.vals.s@.len() == N,
        forall|j: int| 0 <= j < i ==> ret.keys.s@[j] == self.keys.s@[j] && ret.vals.s@[j] == self.vals.s@[j],
        forall|j: int| i <= j < N ==> ret.keys.s@[j] is None && ret.vals.s@[j] is None,
@tail
    proof { assert(__r.keys.s@ =~= self.keys.s@); assert(__r.vals.s@ =~= self.vals.s@); }
#fn Default@InlineVec::default -> r +name=default_
    requires cap::<N>(),
    ensures vok(r), r.len == 0, vs(r) == Seq::<(K, V)>::empty(),
#fn Drop@InlineVec::drop +name=drop_
    requires vok(*old(self)),
    ensures full(final(self).keys.s@, 0), full(final(self).vals.s@, 0),
