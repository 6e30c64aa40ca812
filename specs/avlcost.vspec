#include cost.inc
#calls arc_make_mut vclone vcopy
#source src/avl.rs
#subst \bArc::make_mut\( => arc_make_mut(
#subst \bArc::get_mut\( => arc_get_mut(
#subst \bArc::try_unwrap\( => arc_try_unwrap(
#subst \bArc::clone\(\s*&?\s*([\w.]+)\s*\) => \1.clone()
#subst \(\*(\w+)\)\.clone\(\) => vcopy(&\1)
#subst \b(?:std::)?(?:mem::)?replace\( => mem_replace(
#subst \.clone\(\) => .vclone()
#subst \.borrow\(\) => .vborrow()
#subst \.unwrap\(\) => .vunwrap()
#subst \bpanic!\( => vpanic!(
#subst \bassert!\( => vassume!(
#subst \bdebug_assert!\( => vassume!(
#subst \bchk_map!\( => vassume!(
#subst \bchk_node!\( => (
#subst \bClone\b => VClone
#subst ([\w.]+)\s([-+])=\s([^;]+); => \1=vany(\1,\3);
#item type OptNode
#item struct IsShorter
#item struct IsTaller
#item struct Node
#item struct AvlMap
#raw
impl<K, V> VClone for Node<K, V> {
    open spec fn ce() -> nat { 1 }
    open spec fn ca() -> nat { 1 }
    #[verifier::external_body]
    fn vclone(&self, Tracked(cc): Tracked<&mut Cost>) -> (r: Self) { unimplemented!() }
}
spec fn ht<K, V>(t: OptNode<K, V>) -> nat
    decreases t
{
    match t {
        None => 0,
        Some(n) => 1 + (if ht(n.left) > ht(n.right) { ht(n.left) } else { ht(n.right) }),
    }
}
#prop C17
#fn Node::bal +noghost +havoc
#fn Node::is_bal +noghost +havoc
#fn Node::height -> r +noghost +havoc
    ensures 0 <= r < 100,
#fn height -> r +noghost +havoc
    ensures 0 <= r < 100,
#fn len +noghost +havoc
#fn Node::new -> r +noghost
    ensures r.left == left, r.right == right,
#fn Node::opt_new -> r_ +noghost
    ensures r_ is Some, r_->0.left == l, r_->0.right == r,
#ghost Tracked(cc): Tracked<&mut Cost>
#fn Node::set_left
    ensures same(*old(cc), *final(cc)), final(self).left == rt, final(self).right == old(self).right,
#fn Node::set_right
    ensures same(*old(cc), *final(cc)), final(self).right == rt, final(self).left == old(self).left,
#fn take_node -> r
    ensures same(*old(cc), *final(cc)),
#fn rot_lf -> r
    ensures within(*old(cc), *final(cc), 2),
#fn rot_rt -> r
    ensures within(*old(cc), *final(cc), 2),
#fn rot_rt_lf -> r
    ensures within(*old(cc), *final(cc), 3),
#fn rot_lf_rt -> r
    ensures within(*old(cc), *final(cc), 3),
#fn rebal_lf_to_rt -> r
    ensures within(*old(cc), *final(cc), 3),
#fn rebal_rt_to_lf -> r
    ensures within(*old(cc), *final(cc), 3),
#fn ins -> r
    ensures within(*old(cc), *final(cc), ht(*old(root)) + if r.1.0 { 0nat } else { 3nat }),
    decreases ht(*old(root))
#fn rm_leftmost -> r
    ensures within(*old(cc), *final(cc), 4 * ht(*old(root))),
    decreases ht(*old(root))
#fn rm_rightmost -> r
    ensures within(*old(cc), *final(cc), 4 * ht(*old(root))),
    decreases ht(*old(root))
#fn rm -> r
    ensures within(*old(cc), *final(cc), 4 * ht(*old(root))),
    decreases ht(*old(root))
#fn join_rt -> r
    ensures within(*old(cc), *final(cc), 5 * ht(Some(left)) ),
    decreases ht(Some(left))
#fn join_lf -> r
    ensures within(*old(cc), *final(cc), 5 * ht(Some(right)) ),
    decreases ht(Some(right))
#fn join -> r
    ensures within(*old(cc), *final(cc), 5 * (ht(opt_left) + ht(opt_right))),
#fn join2 -> r
    ensures quiet(*old(cc), *final(cc)),
#fn split -> r
    ensures quiet(*old(cc), *final(cc)),
    decreases ht(opt_root)
#item enum NoMatchMergePolicy
#item struct Merger +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V) +attr=verifier::reject_recursive_types(F)
#fn Merger::merge -> r
    requires forall|a: (K, V), b: (K, V)| #[trigger] old(self).deconflict.requires((a, b)),
    ensures *final(self) == *old(self), quiet(*old(cc), *final(cc)),
    decreases opt_t1
@begin
    let ghost me = *self;
#fn intersect -> r
    ensures quiet(*old(cc), *final(cc)),
@sub deconflict: &mut \| => deconflict: |
@closure 0 (l: (K, V), r: (K, V)) -> (res: Option<(K, V)>)
    ensures true
#fn diff -> r
    ensures quiet(*old(cc), *final(cc)),
@sub deconflict: &mut \| => deconflict: |
@closure 0 (l: (K, V), r: (K, V)) -> (res: Option<(K, V)>)
    ensures true
#fn sym_diff -> r
    ensures quiet(*old(cc), *final(cc)),
@sub deconflict: &mut \| => deconflict: |
@closure 0 (l: (K, V), r: (K, V)) -> (res: Option<(K, V)>)
    ensures true
#fn union -> r
    ensures quiet(*old(cc), *final(cc)),
@sub deconflict: &mut \| => deconflict: |
@closure 0 (l: (K, V), r: (K, V)) -> (res: Option<(K, V)>)
    ensures true
#fn AvlMap::append
    ensures quiet(*old(cc), *final(cc)),
#fn AvlMap::new_diff -> r
    ensures quiet(*old(cc), *final(cc)),
#fn AvlMap::new_intersect -> r
    ensures quiet(*old(cc), *final(cc)),
#fn AvlMap::new_sym_diff -> r
    ensures quiet(*old(cc), *final(cc)),
#fn AvlMap::new_union -> r
    ensures quiet(*old(cc), *final(cc)),
#fn AvlMap::clear
    ensures same(*old(cc), *final(cc)),
#fn AvlMap::insert -> r
    ensures within(*old(cc), *final(cc), ht(old(self).root) + 3),
#fn AvlMap::get_mut -> r +noiso
    ensures within(*old(cc), *final(cc), ht(old(self).root)),
@loop 0
    invariant
        quiet(*old(cc), *cc), cc.copies + ht(*curr) <= old(cc).copies + ht(old(self).root),
    decreases ht(*curr)
#fn AvlMap::remove_entry -> r
    ensures within(*old(cc), *final(cc), 4 * ht(old(self).root)),
#fn AvlMap::remove -> r
    ensures within(*old(cc), *final(cc), 4 * ht(old(self).root)),
@closure 0 (e: (K, V)) -> (r: V)
    ensures true
#fn AvlMap::pop_first -> r
    ensures within(*old(cc), *final(cc), 4 * ht(old(self).root)),
#fn AvlMap::pop_last -> r
    ensures within(*old(cc), *final(cc), 4 * ht(old(self).root)),
#fn AvlMap::split_off -> r
    ensures quiet(*old(cc), *final(cc)),
@sub ?self\.len\s-\s(\w+) => vany(self.len, \1)
#fn AvlMap::new_join -> r
    ensures quiet(*old(cc), *final(cc)),
@sub ?len:\s(\w+\.len)\s\+\s1\s\+\s(\w+\.len) => len: vany(\1, \2)
#fn Clone@AvlMap::clone -> r +name=vclone
    ensures final(cc).elems == old(cc).elems, final(cc).copies == old(cc).copies, final(cc).arcs <= old(cc).arcs + 1,
#source src/avl/avl_set.rs
#subst \bClone\b => VClone
#subst \.clone\(\) => .vclone()
#subst \bArc::make_mut\( => arc_make_mut(
#subst \bArc::try_unwrap\( => arc_try_unwrap(
#subst \bpanic!\( => vpanic!(
#subst \bsuper::(\w) => \1
#subst ([\w.]+)\s([-+])=\s([^;]+); => \1=vany(\1,\3);
#subst \bself\.take\( => self.take_value(
#item struct AvlSet
#fn Clone@AvlSet::clone -> r +name=vclone
    ensures final(cc).elems == old(cc).elems, final(cc).copies == old(cc).copies, final(cc).arcs <= old(cc).arcs + 1,
#fn AvlSet::append
    ensures quiet(*old(cc), *final(cc)),
#fn AvlSet::new_diff -> r
    ensures quiet(*old(cc), *final(cc)),
#fn AvlSet::new_intersection -> r
    ensures quiet(*old(cc), *final(cc)),
#fn AvlSet::new_union -> r
    ensures quiet(*old(cc), *final(cc)),
#fn AvlSet::new_sym_diff -> r
    ensures quiet(*old(cc), *final(cc)),
#fn AvlSet::split_off -> r
    ensures quiet(*old(cc), *final(cc)),
#fn AvlSet::insert -> r
    ensures within(*old(cc), *final(cc), ht(old(self).map.root) + 3),
#fn AvlSet::pop_first -> r
    ensures within(*old(cc), *final(cc), 4 * ht(old(self).map.root)),
#fn AvlSet::pop_last -> r
    ensures within(*old(cc), *final(cc), 4 * ht(old(self).map.root)),
#fn AvlSet::remove -> r
    ensures within(*old(cc), *final(cc), 4 * ht(old(self).map.root)),
#fn AvlSet::take -> r +name=take_value
    ensures within(*old(cc), *final(cc), 4 * ht(old(self).map.root)),
#fn AvlSet::replace -> r +name=replace_value
    ensures quiet(*old(cc), *final(cc)),
#include footer.inc
