#include btsubst.inc
#raw
#item type NodePtr
#item struct Node
#item enum InsertResult
#item struct IsUnderPop
#raw
#prop C15
#fn Clone@Node::clone -> r +keeptrait
    ensures r == *self,
#raw

// the minimum occupancies considered
spec fn okn<const N: usize>() -> bool { 1 <= N < 0x1000_0000 }

spec fn nh<K, V, const N: usize>(n: Node<K, V, N>) -> nat
    decreases n
{
    if n.kids.len() == 0 { 1 } else { 1 + nh(*n.kids[0]) }
}

spec fn nels<K, V, const N: usize>(n: Node<K, V, N>) -> Seq<(K, V)>
    decreases n, 1nat
{
    il(kels(n), n.elems@)
}

spec fn kels<K, V, const N: usize>(n: Node<K, V, N>) -> Seq<Seq<(K, V)>>
    decreases n, 0nat
{
    Seq::new(n.kids.len() as nat, |i: int| if 0 <= i < n.kids.len() { nels(*n.kids[i]) } else { Seq::empty() })
}

// the node behind a pointer
spec fn an<K, V, const N: usize>(a: NodePtr<K, V, N>) -> Node<K, V, N> { *a }

// child i
spec fn kd<K, V, const N: usize>(n: Node<K, V, N>, i: int) -> Node<K, V, N> { *n.kids@[i] }

// the sequences of the children
spec fn ksq<K, V, const N: usize>(s: Seq<Arc<Node<K, V, N>>>) -> Seq<Seq<(K, V)>> {
    Seq::new(s.len(), |i: int| nels(*s[i]))
}

spec fn fan<K, V, const N: usize>(n: Node<K, V, N>) -> bool {
    n.kids.len() == 0 || n.kids.len() == n.elems.len() + 1
}

// well-formed with at least `lo` entries at the root
spec fn shp<K, V, const N: usize>(n: Node<K, V, N>, lo: int) -> bool
    decreases n
{
    &&& lo <= n.elems.len() <= 2 * N + 1
    &&& fan(n)
    &&& forall|i: int| 0 <= i < n.kids.len() ==> shp(*#[trigger] n.kids[i], N as int) && nh(*n.kids[i]) + 1 == nh(n)
}

// every child but the one at x is well-formed, that one may be short
spec fn shpx<K, V, const N: usize>(n: Node<K, V, N>, x: int, lo: int) -> bool {
    &&& fan(n)
    &&& forall|i: int| 0 <= i < n.kids.len() ==>
            shp(#[trigger] kd(n, i), if i == x { lo } else { N as int }) && nh(kd(n, i)) + 1 == nh(n)
}

proof fn node<K, V, const N: usize>(n: Node<K, V, N>)
    ensures
        nels(n) == il(ksq(n.kids@), n.elems@),
        nh(n) == (if n.kids.len() == 0 { 1 } else { 1 + nh(kd(n, 0)) }),
        nh(n) >= 1,
        n.kids.len() == 0 ==> nels(n) == n.elems@,
{
    assert(ksq(n.kids@) =~= kels(n));
    if n.kids.len() == 0 {
        assert(ksq(n.kids@) =~= Seq::<Seq<(K, V)>>::empty());
        lemma_il_leaf(n.elems@);
    }
}

proof fn shp_unfold<K, V, const N: usize>(n: Node<K, V, N>, lo: int)
    ensures
        shp(n, lo) == {
            &&& lo <= n.elems.len() <= 2 * N + 1
            &&& fan(n)
            &&& forall|i: int| 0 <= i < n.kids.len() ==> shp(#[trigger] kd(n, i), N as int) && nh(kd(n, i)) + 1 == nh(n)
        },
{
    assert(forall|i: int| #![trigger n.kids[i]] #![trigger kd(n, i)] 0 <= i < n.kids.len() ==> *n.kids[i] == kd(n, i));
    if shp(n, lo) {
        assert forall|i: int| 0 <= i < n.kids.len() implies shp(#[trigger] kd(n, i), N as int) && nh(kd(n, i)) + 1 == nh(n) by {
            assert(shp(*n.kids[i], N as int));
        }
    }
}
