#include cost.inc
#calls arc_make_mut vclone vcopy
#source src/btree.rs
#subst \bArc::make_mut\( => arc_make_mut(
#subst \bArc::get_mut\( => arc_get_mut(
#subst \bArc::try_unwrap\( => arc_try_unwrap(
#subst \bArc::clone\(\s*&?\s*([\w.]+)\s*\) => \1.clone()
#subst \(\*(\w+)\)\.clone\(\) => vcopy(&\1)
#subst \b(?:std::)?(?:mem::)?replace\( => mem_replace(
#subst \.clone\(\) => .vclone()
#subst \.borrow\(\) => .vborrow()
#subst \.unwrap\(\) => .vunwrap()
#subst \bpanic!\( => vpanic!(
#subst \bassert!\( => vassume!(
#subst \bClone\b => VClone
#subst (\w*elems|\w*kids)\.(remove|insert|split_off|extend|get_mut|last_mut)\( => \1.v\2(
#subst &mut\sself\.(kids|elems)\[([^\]]+)\] => self.\1.vat_mut(\2)
#subst \bself\.(kids|elems)\[([^\]]+)\] => self.\1.vat(\2)
#subst \bSelf::(MIN|MAX)_OCCUPANCY\s\+\s1\b => vsz()
#subst \bSelf::(MIN|MAX)_OCCUPANCY\s-\sSelf::(MIN|MAX)_OCCUPANCY\b => vsz()
#subst \bSelf::(MIN|MAX)_OCCUPANCY\b => vsz()
#subst ([\w.]+)\s([-+])=\s([^;]+?)(;|,\n) => \1=vany(\1,\3)\4
#subst FnOnce\(&mut\sNode<K,\sV,\sN>\) => FnOnce(&mut(Node<K,V,N>),Tracked<&mut(Cost)>)
#item type NodePtr
#item struct Node
#item enum InsertResult
#item struct IsUnderPop
#item struct BTreeMap +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V)
#raw
impl<K, V, const N: usize> VClone for Node<K, V, N> {
    open spec fn ce() -> nat { 1 }
    open spec fn ca() -> nat { 1 }
    #[verifier::external_body]
    fn vclone(&self, Tracked(cc): Tracked<&mut Cost>) -> (r: Self) { unimplemented!() }
}
// no path below the node is longer than h
spec fn deep<K, V, const N: usize>(n: Node<K, V, N>, h: nat) -> bool
    decreases n
{
    n.kids.len() > 0 ==> h > 0 && forall|i: int| 0 <= i < n.kids.len() ==> deep(*#[trigger] n.kids[i], (h - 1) as nat)
}
spec fn an<K, V, const N: usize>(a: NodePtr<K, V, N>) -> Node<K, V, N> { *a }
// the child x of n is h - 1 deep
spec fn under<K, V, const N: usize>(n: Node<K, V, N>, x: Node<K, V, N>) -> bool {
    forall|h: nat| #[trigger] deep(n, h) ==> h > 0 && deep(x, (h - 1) as nat)
}
proof fn lemma_last<K, V, const N: usize>(n: Node<K, V, N>)
    ensures n.kids@.len() > 0 ==> under(n, an(n.kids@.last())),
{
    if n.kids@.len() > 0 {
        assert forall|h: nat| #[trigger] deep(n, h) implies h > 0 && deep(an(n.kids@.last()), (h - 1) as nat) by {
            assert(deep(*n.kids[n.kids@.len() - 1], (h - 1) as nat));
        }
    }
}
#prop C17
#fn Node::key +noghost +havoc
#fn Node::key_mut +noghost +havoc
#fn Node::val +noghost +havoc
#fn Node::val_mut +noghost +havoc
#fn Node::len +noghost +havoc
#fn Node::is_branch +noghost +havoc
#fn Node::is_leaf +noghost +havoc
#fn Node::child_mut -> r +noghost
    ensures match r { Some(x) => under(*old(self), an(*x)), None => true },
#ghost Tracked(cc): Tracked<&mut Cost>
#fn Node::get_mut -> r +nodecr
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deep(*old(self), h) ==> within(*old(cc), *final(cc), h),
@begin
    proof { lemma_last(*self); }
@loop 0
    invariant same(*old(cc), *cc), *self == *old(self),
#fn Node::split -> r
    ensures same(*old(cc), *final(cc)),
#fn Node::insert -> r +nodecr
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deep(*old(self), h) ==> within(*old(cc), *final(cc), h),
@loop 0
    invariant same(*old(cc), *cc), *self == *old(self),
#fn Node::rot_lf
    requires idx < usize::MAX,
    ensures within(*old(cc), *final(cc), 2),
#fn Node::rot_rt
    requires idx < usize::MAX,
    ensures within(*old(cc), *final(cc), 2),
#fn Node::merge_kids
    ensures within(*old(cc), *final(cc), 2),
#fn Node::rebal -> r
    ensures within(*old(cc), *final(cc), 2),
#fn Node::pop_first -> r +nodecr
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deep(*old(self), h) ==> within(*old(cc), *final(cc), 3 * h),
#fn Node::pop_last -> r +nodecr
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deep(*old(self), h) ==> within(*old(cc), *final(cc), 3 * h),
@begin
    proof { lemma_last(*self); }
#fn Node::remove -> r +nodecr
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deep(*old(self), h) ==> within(*old(cc), *final(cc), 3 * h),
@begin
    proof { lemma_last(*self); }
@loop 0
    invariant same(*old(cc), *cc), *self == *old(self),
#raw
// a map no path of which is longer than h levels
spec fn deepm<K, V, const N: usize>(m: BTreeMap<K, V, N>, h: nat) -> bool {
    m.root is Some ==> h > 0 && deep(an(m.root->0), (h - 1) as nat)
}
#[verifier::prophetic]
spec fn cpost<K, V, const N: usize>(n: Node<K, V, N>, c: Tracked<&mut Cost>) -> bool {
    quiet(*(c@), *final(c@)) && forall|h: nat| #[trigger] deep(n, h) ==> within(*(c@), *final(c@), 3 * h)
}
#fn BTreeMap::insert -> r
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deepm(*old(self), h) ==> within(*old(cc), *final(cc), h),
#fn BTreeMap::get_mut -> r
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deepm(*old(self), h) ==> within(*old(cc), *final(cc), h),
@closure 0 (e: &mut (K, V)) -> (r: &mut V)
    ensures true
#fn BTreeMap::rm_and_rebal -> r
    requires forall|n: &mut Node<K, V, N>, c: Tracked<&mut Cost>| #[trigger] remover.requires((n, c)),
        forall|n: &mut Node<K, V, N>, c: Tracked<&mut Cost>, x: Option<((K, V), IsUnderPop)>| #[trigger] remover.ensures((n, c), x) ==>
            cpost(*n, c),
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deepm(*old(self), h) ==> within(*old(cc), *final(cc), 3 * h),
@sub remover\(n\) => remover(n, Tracked(&mut *cc))
#fn BTreeMap::pop_first -> r
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deepm(*old(self), h) ==> within(*old(cc), *final(cc), 3 * h),
@sub \|n\| (n\.\w+\([^()]*\)) => |n, ct| { let Tracked(cc) = ct; \1 }
@closure 0 (n: &mut Node<K, V, N>, ct: Tracked<&mut Cost>) -> (r: Option<((K, V), IsUnderPop)>)
    ensures cpost(*old(n), ct),
#fn BTreeMap::pop_last -> r
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deepm(*old(self), h) ==> within(*old(cc), *final(cc), 3 * h),
@sub \|n\| (n\.\w+\([^()]*\)) => |n, ct| { let Tracked(cc) = ct; \1 }
@closure 0 (n: &mut Node<K, V, N>, ct: Tracked<&mut Cost>) -> (r: Option<((K, V), IsUnderPop)>)
    ensures cpost(*old(n), ct),
#fn BTreeMap::contains_key +noghost +havoc
#fn BTreeMap::remove -> r
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deepm(*old(self), h) ==> within(*old(cc), *final(cc), 3 * h),
@sub \|n\| (n\.\w+\([^()]*\)) => |n, ct| { let Tracked(cc) = ct; \1 }
@closure 0 (n: &mut Node<K, V, N>, ct: Tracked<&mut Cost>) -> (r: Option<((K, V), IsUnderPop)>)
    ensures cpost(*old(n), ct),
@closure 1 (e: (K, V)) -> (r: V)
    ensures true
#fn Clone@BTreeMap::clone -> r +name=vclone
    ensures final(cc).elems == old(cc).elems, final(cc).copies == old(cc).copies, final(cc).arcs <= old(cc).arcs + 1,
#source src/btree/btree_set.rs
#subst \bClone\b => VClone
#subst \.clone\(\) => .vclone()
#subst \bArc::make_mut\( => arc_make_mut(
#item struct BTreeSet +attr=verifier::reject_recursive_types(T)
#fn Clone@BTreeSet::clone -> r +name=vclone
    ensures final(cc).elems == old(cc).elems, final(cc).copies == old(cc).copies, final(cc).arcs <= old(cc).arcs + 1,
#fn BTreeSet::insert -> r
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deepm(old(self).map, h) ==> within(*old(cc), *final(cc), h),
#fn BTreeSet::pop_first -> r
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deepm(old(self).map, h) ==> within(*old(cc), *final(cc), 3 * h),
@closure 0 (e: (T, ())) -> (r: T)
    ensures true
#fn BTreeSet::pop_last -> r
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deepm(old(self).map, h) ==> within(*old(cc), *final(cc), 3 * h),
@closure 0 (e: (T, ())) -> (r: T)
    ensures true
#fn BTreeSet::remove -> r
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deepm(old(self).map, h) ==> within(*old(cc), *final(cc), 3 * h),
#fn BTreeSet::contains +noghost +havoc
#fn BTreeSet::take -> r +name=take_value
    ensures quiet(*old(cc), *final(cc)), forall|h: nat| #[trigger] deepm(old(self).map, h) ==> within(*old(cc), *final(cc), 3 * h),
@sub \|n\| (n\.\w+\([^()]*\)) => |n, ct| { let Tracked(cc) = ct; \1 }
@closure 0 (n: &mut Node<T, (), N>, ct: Tracked<&mut Cost>) -> (r: Option<((T, ()), IsUnderPop)>)
    ensures cpost(*old(n), ct),
@closure 1 (e: (T, ())) -> (r: T)
    ensures true
#fn BTreeSet::replace -> r +name=replace_value
    ensures quiet(*old(cc), *final(cc)),
@sub \|n\| (n\.\w+\([^()]*\)) => |n, ct| { let Tracked(cc) = ct; \1 }
@closure 0 (n: &mut Node<T, (), N>, ct: Tracked<&mut Cost>) -> (r: Option<((T, ()), IsUnderPop)>)
    ensures cpost(*old(n), ct),
@closure 1 (e: (T, ())) -> (r: T)
    ensures true
#include footer.inc
