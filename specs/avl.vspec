#include header.inc
#include order.inc
#include bulk.inc
#include range.inc
#include viter.inc
#include seqcmp.inc
#source src/avl.rs
#subst \bArc::make_mut\( => arc_make_mut(
#subst \bArc::get_mut\( => arc_get_mut(
#subst \bArc::try_unwrap\( => arc_try_unwrap(
#subst \b(?:std::)?(?:mem::)?replace\( => mem_replace(
#subst \.clone\(\) => .vclone()
#subst \.borrow\(\) => .vborrow()
#subst \.start_bound\(\) => .vstart()
#subst \.end_bound\(\) => .vend()
#subst \bwork\.front\(\) => work.vfront()
#subst \bwork\.back\(\) => work.vback()
#item type OptNode
#item struct IsShorter
#item struct IsTaller
#item struct Node
#raw
#prop C15
#fn Clone@Node::clone -> r +keeptrait
    ensures r == *self,
#raw

// --- abstract value and shape of a tree ------------------------------------
spec fn els<K, V>(t: OptNode<K, V>) -> Seq<(K, V)>
    decreases t
{
    match t {
        None => Seq::empty(),
        Some(n) => cat(els(n.left), (n.key, n.val), els(n.right)),
    }
}

spec fn ht<K, V>(t: OptNode<K, V>) -> nat
    decreases t
{
    match t {
        None => 0,
        Some(n) => 1 + (if ht(n.left) > ht(n.right) { ht(n.left) } else { ht(n.right) }),
    }
}

// cached heights are the real ones, every node is balanced
spec fn shape<K, V>(t: OptNode<K, V>) -> bool
    decreases t
{
    match t {
        None => true,
        Some(n) => nshape(*n) && -1 <= n.right_ht - n.left_ht <= 1,
    }
}

// as `shape`, but the root itself may be out of balance
spec fn nshape<K, V>(n: Node<K, V>) -> bool
    decreases n
{
    shape(n.left) && shape(n.right) && n.left_ht == ht(n.left) && n.right_ht == ht(n.right)
}

// cached heights are the real ones; nothing need be balanced
spec fn cached<K, V>(t: OptNode<K, V>) -> bool
    decreases t
{
    match t {
        None => true,
        Some(n) => cached(n.left) && cached(n.right) && n.left_ht == ht(n.left) && n.right_ht == ht(n.right),
    }
}
spec fn tidy<K, V>(t: OptNode<K, V>) -> bool { shape(t) || cached(t) }
proof fn lemma_cached<K, V>(t: OptNode<K, V>)
    requires shape(t),
    ensures cached(t),
    decreases t
{
    if t is Some { lemma_cached(lf(t)); lemma_cached(rt(t)); }
}

spec fn lf<K, V>(t: OptNode<K, V>) -> OptNode<K, V> { t->0.left }
spec fn rt<K, V>(t: OptNode<K, V>) -> OptNode<K, V> { t->0.right }
spec fn en<K, V>(t: OptNode<K, V>) -> (K, V) { (t->0.key, t->0.val) }

// one unfolding of all of the above
proof fn node<K, V>(t: OptNode<K, V>)
    ensures
        ht(t) == 0 <==> t is None,
        t is None ==> els(t) == Seq::<(K, V)>::empty() && shape(t),
        t is Some ==> {
            let n = *(t->0);
            &&& els(t) == cat(els(n.left), en(t), els(n.right))
            &&& ht(t) == 1 + (if ht(n.left) > ht(n.right) { ht(n.left) } else { ht(n.right) })
            &&& shape(t) == (nshape(n) && -1 <= n.right_ht - n.left_ht <= 1)
            &&& nshape(n) == (shape(n.left) && shape(n.right) && n.left_ht == ht(n.left) && n.right_ht == ht(n.right))
        },
{
}

// exact single rotations
spec fn is_rotl<K, V>(t: OptNode<K, V>, u: OptNode<K, V>) -> bool {
    &&& u is Some && lf(u) is Some
    &&& { let (a, b, r, l) = (*(t->0), *(rt(t)->0), *(u->0), *(lf(u)->0));
        &&& (r.key, r.val, r.right_ht, r.right) == (b.key, b.val, b.right_ht, b.right)
        &&& (l.key, l.val, l.left_ht, l.left) == (a.key, a.val, a.left_ht, a.left)
        &&& (l.right_ht, l.right) == (b.left_ht, b.left)
        &&& r.left_ht == 1 + (if l.left_ht > l.right_ht { l.left_ht } else { l.right_ht })
    }
}

spec fn is_rotr<K, V>(t: OptNode<K, V>, u: OptNode<K, V>) -> bool {
    &&& u is Some && rt(u) is Some
    &&& { let (a, b, r, l) = (*(t->0), *(lf(t)->0), *(u->0), *(rt(u)->0));
        &&& (r.key, r.val, r.left_ht, r.left) == (b.key, b.val, b.left_ht, b.left)
        &&& (l.key, l.val, l.right_ht, l.right) == (a.key, a.val, a.right_ht, a.right)
        &&& (l.left_ht, l.left) == (b.right_ht, b.right)
        &&& r.right_ht == 1 + (if l.left_ht > l.right_ht { l.left_ht } else { l.right_ht })
    }
}

spec fn lbal<K, V>(t: OptNode<K, V>) -> int { t->0.right_ht - t->0.left_ht }

spec fn wf<K: Ord, V>(t: OptNode<K, V>) -> bool { shape(t) && sorted(els(t)) }

#prop C01 C02 C03
#fn Node::bal -> r
    requires -1 < self.left_ht, -1 < self.right_ht,
    ensures r == self.right_ht - self.left_ht,
#fn Node::height -> r
    requires -1 < self.left_ht < 127, -1 < self.right_ht < 127,
    ensures r == 1 + (if self.left_ht > self.right_ht { self.left_ht } else { self.right_ht }),
#fn Node::is_bal -> r
    requires -1 < self.left_ht < 126, -1 < self.right_ht < 126,
    ensures r == (-1 <= self.right_ht - self.left_ht <= 1),
@begin
    assert(forall|x: i8| -127 < x < 127 ==> ((#[trigger] ((x + 1) as i8) as u8) <= 2) == (-1 <= x <= 1)) by (bit_vector);
#fn height -> r
    requires tidy(*opt_node), ht(*opt_node) <= 126,
    ensures r == ht(*opt_node),
@closure 0 (rc: &Arc<Node<K, V>>) -> (r: i8)
    requires -1 < rc.left_ht < 127, -1 < rc.right_ht < 127,
    ensures r == 1 + (if rc.left_ht > rc.right_ht { rc.left_ht } else { rc.right_ht }),
#fn rot_lf -> r
    requires
        *old(root) is Some,
        (*old(root))->0.right is Some,
        -1 < (*old(root))->0.left_ht <= 120,
        -1 < (*old(root))->0.right->0.left_ht <= 120,
        -1 < (*old(root))->0.right->0.right_ht <= 120,
    ensures
        is_rotl(*old(root), *final(root)),
        els(*final(root)) == els(*old(root)),
        r.0 == ((*old(root))->0.right->0.right_ht != (*old(root))->0.right->0.left_ht),
@begin
    broadcast use lemma_cat_assoc;
    proof { node(*root); node(rt(*root)); }
@tail
    proof { node(*root); node(lf(*root)); }
#fn rot_rt -> r
    requires
        *old(root) is Some,
        (*old(root))->0.left is Some,
        -1 < (*old(root))->0.right_ht <= 120,
        -1 < (*old(root))->0.left->0.left_ht <= 120,
        -1 < (*old(root))->0.left->0.right_ht <= 120,
    ensures
        is_rotr(*old(root), *final(root)),
        els(*final(root)) == els(*old(root)),
        r.0 == ((*old(root))->0.left->0.left_ht != (*old(root))->0.left->0.right_ht),
@begin
    broadcast use lemma_cat_assoc;
    proof { node(*root); node(lf(*root)); }
@tail
    proof { node(*root); node(rt(*root)); }
#fn rot_rt_lf -> r
    requires
        *old(root) is Some,
        nshape(*((*old(root))->0)),
        ht(*old(root)) <= 120,
        (*old(root))->0.right is Some,
        (*old(root))->0.right_ht == (*old(root))->0.left_ht + 2,
        (*old(root))->0.right->0.right_ht < (*old(root))->0.right->0.left_ht,
    ensures
        els(*final(root)) == els(*old(root)),
        shape(*final(root)),
        ht(*final(root)) == ht(*old(root)) - 1,
        r.0,
@begin
    broadcast use lemma_cat_assoc;
    proof { node(*root); node(rt(*root)); node(lf(rt(*root))); }
@tail
    proof { node(*root); node(lf(*root)); node(rt(*root)); }
#fn rot_lf_rt -> r
    requires
        *old(root) is Some,
        nshape(*((*old(root))->0)),
        ht(*old(root)) <= 120,
        (*old(root))->0.left is Some,
        (*old(root))->0.left_ht == (*old(root))->0.right_ht + 2,
        (*old(root))->0.left->0.left_ht < (*old(root))->0.left->0.right_ht,
    ensures
        els(*final(root)) == els(*old(root)),
        shape(*final(root)),
        ht(*final(root)) == ht(*old(root)) - 1,
        r.0,
@begin
    broadcast use lemma_cat_assoc;
    proof { node(*root); node(lf(*root)); node(rt(lf(*root))); }
@tail
    proof { node(*root); node(lf(*root)); node(rt(*root)); }
#fn rebal_lf_to_rt -> r
    requires
        *old(root) is Some,
        nshape(*((*old(root))->0)),
        ht(*old(root)) <= 120,
        (*old(root))->0.left_ht == (*old(root))->0.right_ht + 2,
    ensures
        els(*final(root)) == els(*old(root)),
        shape(*final(root)),
        ht(*final(root)) == ht(*old(root)) - (if r.0 { 1int } else { 0 }),
        r.0 == ((*old(root))->0.left->0.right_ht != (*old(root))->0.left->0.left_ht),
@sub ?\bArc::get_mut\( => arc_get_mut_unique(
@begin
    proof { node(*root); node(lf(*root)); }
@tail
    proof { node(*root); node(lf(*root)); node(rt(*root)); }
#fn rebal_rt_to_lf -> r
    requires
        *old(root) is Some,
        nshape(*((*old(root))->0)),
        ht(*old(root)) <= 120,
        (*old(root))->0.right_ht == (*old(root))->0.left_ht + 2,
    ensures
        els(*final(root)) == els(*old(root)),
        shape(*final(root)),
        ht(*final(root)) == ht(*old(root)) - (if r.0 { 1int } else { 0 }),
        r.0 == ((*old(root))->0.right->0.right_ht != (*old(root))->0.right->0.left_ht),
@sub ?\bArc::get_mut\( => arc_get_mut_unique(
@begin
    proof { node(*root); node(rt(*root)); }
@tail
    proof { node(*root); node(lf(*root)); node(rt(*root)); }
#raw
proof fn ins_facts<K: Ord, V>(t: OptNode<K, V>, k: K, v: V)
    requires lawful::<K>(), sorted(els(t)),
    ensures
        sorted(m_ins(els(t), k, v)),
        t is None ==> m_ins(els(t), k, v) == cat(Seq::<(K, V)>::empty(), (k, v), Seq::<(K, V)>::empty())
            && m_get(els(t), kcut(k)) is None,
        t is Some ==> {
            let (l, e, r) = (els(lf(t)), en(t), els(rt(t)));
            &&& sorted(l) && sorted(r)
            &&& m_get(els(t), kcut(k)) == (match k.cmp_spec(&e.0) {
                    Ordering::Less => m_get(l, kcut(k)),
                    Ordering::Equal => Some(e),
                    Ordering::Greater => m_get(r, kcut(k)),
                })
            &&& m_ins(els(t), k, v) == (match k.cmp_spec(&e.0) {
                    Ordering::Less => cat(m_ins(l, k, v), e, r),
                    Ordering::Equal => cat(l, (k, v), r),
                    Ordering::Greater => cat(l, e, m_ins(r, k, v)),
                })
        },
{
    lemma_ins_sorted(els(t), k, v);
    lemma_kcut_mono(k);
    if t is Some {
        let (l, e, r) = (els(lf(t)), en(t), els(rt(t)));
        assert(els(t) == cat(l, e, r));
        lemma_sorted_cat(l, e, r);
        lemma_get_cat(l, e, r, kcut(k));
        lemma_ins_cat(l, e, r, k, v);
    } else {
        lemma_idx_empty(els(t), kcut(k));
        assert(m_ins(els(t), k, v) =~= cat(Seq::<(K, V)>::empty(), (k, v), Seq::<(K, V)>::empty()));
    }
}
#fn Node::new -> r
    requires tidy(left), tidy(right), ht(left) <= 126, ht(right) <= 126,
    ensures shape(left) && shape(right) ==> nshape(r), r.left_ht == ht(left), r.right_ht == ht(right), r.key == key, r.val == val, r.left == left, r.right == right,
#fn Node::opt_new -> res
    requires tidy(l), tidy(r), ht(l) <= 126, ht(r) <= 126,
    ensures res is Some, shape(l) && shape(r) ==> nshape(*(res->0)), res->0.left_ht == ht(l), res->0.right_ht == ht(r), res->0.key == k, res->0.val == v, res->0.left == l, res->0.right == r,
#fn ins -> r
    requires
        wf(*old(root)),
        lawful::<K>(),
        ht(*old(root)) <= 110,
    ensures
        wf(*final(root)),
        els(*final(root)) == m_ins(els(*old(root)), k, v),
        r.0 == val_of(m_get(els(*old(root)), kcut(k))),
        ht(*final(root)) == ht(*old(root)) + (if r.1.0 { 1int } else { 0 }),
        *final(root) is Some,
        r.1.0 && *old(root) is Some ==> lbal(*final(root)) != 0,
    decreases *old(root)
@begin
    proof { node(*root); node(lf(*root)); node(rt(*root)); ins_facts(*root, k, v); }
@tail
    proof { node(*root); }
#raw
proof fn rm_facts<K: Ord, V>(t: OptNode<K, V>, c: Cut<K>)
    requires lawful::<K>(), mono(c), sorted(els(t)),
    ensures
        sorted(m_rm(els(t), c)),
        t is None ==> m_rm(els(t), c) == els(t) && m_get(els(t), c) is None,
        t is Some ==> {
            let (l, e, r) = (els(lf(t)), en(t), els(rt(t)));
            &&& sorted(l) && sorted(r)
            &&& m_get(els(t), c) == (match c(e.0) {
                    Ordering::Less => m_get(l, c),
                    Ordering::Equal => Some(e),
                    Ordering::Greater => m_get(r, c),
                })
            &&& m_rm(els(t), c) == (match c(e.0) {
                    Ordering::Less => cat(m_rm(l, c), e, r),
                    Ordering::Equal => l + r,
                    Ordering::Greater => cat(l, e, m_rm(r, c)),
                })
        },
{
    lemma_rm_sorted(els(t), c);
    lemma_idx_empty(Seq::<(K, V)>::empty(), c);
    if t is Some {
        let (l, e, r) = (els(lf(t)), en(t), els(rt(t)));
        assert(els(t) == cat(l, e, r));
        lemma_sorted_cat(l, e, r);
        lemma_get_cat(l, e, r, c);
        lemma_rm_cat(l, e, r, c);
    }
}

// l + ([x] + r) == l + [x] + r, and the empty cases
proof fn lemma_join_cat<K, V>(l: Seq<(K, V)>, r: Seq<(K, V)>)
    ensures
        forall|x: (K, V), rr: Seq<(K, V)>| r == cat(Seq::<(K, V)>::empty(), x, rr) ==> l + r == #[trigger] cat(l, x, rr),
        forall|x: (K, V), ll: Seq<(K, V)>| l == cat(ll, x, Seq::<(K, V)>::empty()) ==> l + r == #[trigger] cat(ll, x, r),
        l.len() == 0 ==> l + r == r,
        r.len() == 0 ==> l + r == l,
{
    assert forall|x: (K, V), rr: Seq<(K, V)>| r == cat(Seq::<(K, V)>::empty(), x, rr) implies l + r == #[trigger] cat(l, x, rr) by {
        assert(l + r =~= cat(l, x, rr));
    }
    assert forall|x: (K, V), ll: Seq<(K, V)>| l == cat(ll, x, Seq::<(K, V)>::empty()) implies l + r == #[trigger] cat(ll, x, r) by {
        assert(l + r =~= cat(ll, x, r));
    }
    assert(l.len() == 0 ==> l + r =~= r);
    assert(r.len() == 0 ==> l + r =~= l);
}
#fn take_node -> r
    requires *old(opt_node) is Some,
    ensures r == *((*old(opt_node))->0), *final(opt_node) is None,
@sub ?\bArc::try_unwrap\( => arc_try_unwrap_unique(
#fn rm_leftmost -> r
    requires shape(*old(root)), ht(*old(root)) <= 120,
    ensures
        shape(*final(root)),
        *old(root) is None ==> r.0 is None,
        *old(root) is Some ==> r.0 is Some
            && els(*old(root)) == cat(Seq::<(K, V)>::empty(), r.0->0, els(*final(root))),
        ht(*final(root)) == ht(*old(root)) - (if r.1.0 { 1int } else { 0 }),
    decreases *old(root)
@begin
    broadcast use lemma_cat_assoc;
    proof { node(*root); node(lf(*root)); node(rt(*root)); }
@tail
    proof { node(*root); }
#fn rm_rightmost -> r
    requires shape(*old(root)), ht(*old(root)) <= 120,
    ensures
        shape(*final(root)),
        *old(root) is None ==> r.0 is None,
        *old(root) is Some ==> r.0 is Some
            && els(*old(root)) == cat(els(*final(root)), r.0->0, Seq::<(K, V)>::empty()),
        ht(*final(root)) == ht(*old(root)) - (if r.1.0 { 1int } else { 0 }),
    decreases *old(root)
@begin
    broadcast use lemma_cat_assoc;
    proof { node(*root); node(lf(*root)); node(rt(*root)); }
@tail
    proof { node(*root); }
#fn rm -> r
    requires
        wf(*old(root)),
        lawful_q::<K, Q>(),
        ht(*old(root)) <= 120,
    ensures
        wf(*final(root)),
        els(*final(root)) == m_rm(els(*old(root)), qcut::<K, Q>(*k)),
        r.0 == m_get(els(*old(root)), qcut::<K, Q>(*k)),
        ht(*final(root)) == ht(*old(root)) - (if r.1.0 { 1int } else { 0 }),
    decreases *old(root)
@begin
    proof {
        node(*root); node(lf(*root)); node(rt(*root));
        lemma_qcut_mono::<K, Q>(*k);
        rm_facts(*root, qcut::<K, Q>(*k));
        if *root is Some { lemma_join_cat(els(lf(*root)), els(rt(*root))); }
    }
@tail
    proof { node(*root); }
#prop C01 C03
#item macro chk_node
#fn Node::set_left -> r
    requires shape(rt), ht(rt) <= 126,
    ensures *final(self) == (Node { left: rt, left_ht: ht(rt) as i8, ..*old(self) }),
#fn Node::set_right -> r
    requires shape(rt), ht(rt) <= 126,
    ensures *final(self) == (Node { right: rt, right_ht: ht(rt) as i8, ..*old(self) }),
#fn join_rt -> r +rlimit=100
    requires
        shape(Some(left)), shape(opt_right),
        ht(Some(left)) > ht(opt_right) + 1,
        ht(Some(left)) <= 120,
    ensures
        shape(r),
        els(r) == cat(els(Some(left)), (k, v), els(opt_right)),
        ht(Some(left)) <= ht(r) <= ht(Some(left)) + 1,
        ht(r) > ht(Some(left)) ==> lbal(r) == 1,
    decreases left
@begin
    broadcast use lemma_cat_assoc;
    let ghost l0 = Some(left);
    proof { node(l0); node(lf(l0)); node(rt(l0)); node(lf(rt(l0))); node(rt(rt(l0))); node(opt_right); }
@tail
    proof { node(__r); node(lf(__r)); node(rt(__r)); }
#fn join_lf -> r +rlimit=100
    requires
        shape(Some(right)), shape(opt_left),
        ht(Some(right)) > ht(opt_left) + 1,
        ht(Some(right)) <= 120,
    ensures
        shape(r),
        els(r) == cat(els(opt_left), (k, v), els(Some(right))),
        ht(Some(right)) <= ht(r) <= ht(Some(right)) + 1,
        ht(r) > ht(Some(right)) ==> lbal(r) == -1,
    decreases right
@begin
    broadcast use lemma_cat_assoc;
    let ghost l0 = Some(right);
    proof { node(l0); node(lf(l0)); node(rt(l0)); node(lf(lf(l0))); node(rt(lf(l0))); node(opt_left); }
@tail
    proof { node(__r); node(lf(__r)); node(rt(__r)); }
#fn join -> r
    requires
        shape(opt_left), shape(opt_right), ht(opt_left) <= 120, ht(opt_right) <= 120,
    ensures
        shape(r),
        els(r) == cat(els(opt_left), (k, v), els(opt_right)),
        ht(opt_left) <= ht(r), ht(opt_right) <= ht(r),
        ht(r) <= ht(opt_left) + 1 || ht(r) <= ht(opt_right) + 1,
@begin
    proof { node(opt_left); node(opt_right); }
@tail
    proof { node(__r); }
#fn join2 -> r
    requires
        shape(opt_left), shape(opt_right), ht(opt_left) <= 120, ht(opt_right) <= 120,
    ensures
        shape(r),
        els(r) == (match opt_kv {
            Some(e) => cat(els(opt_left), e, els(opt_right)),
            None => els(opt_left) + els(opt_right),
        }),
@begin
    proof { node(opt_left); node(opt_right); lemma_join_cat(els(opt_left), els(opt_right)); }
#fn split -> r
    requires
        wf(opt_root), lawful_q::<K, Q>(), ht(opt_root) <= 120,
    ensures
        shape(r.0), shape(r.2), sorted(els(r.0)), sorted(els(r.2)),
        ht(r.0) <= ht(opt_root), ht(r.2) <= ht(opt_root),
        below(els(r.0), qcut::<K, Q>(*k)), above(els(r.2), qcut::<K, Q>(*k)),
        r.1 is Some ==> qcut::<K, Q>(*k)((r.1->0).0) is Equal,
        els(opt_root) == (match r.1 {
            Some(e) => cat(els(r.0), e, els(r.2)),
            None => els(r.0) + els(r.2),
        }),
    decreases opt_root
@begin
    broadcast use group_order;
    let ghost c = qcut::<K, Q>(*k);
    proof {
        lemma_qcut_mono::<K, Q>(*k);
        node(opt_root);
        if opt_root is Some {
            let (l, e, r) = (els(lf(opt_root)), en(opt_root), els(rt(opt_root)));
            lemma_sorted_cat(l, e, r);
            lemma_below_lt(l, e.0, c);
            lemma_below_lt(r, e.0, c);
        }
    }

#raw
// --- sizes bound heights ----------------------------------------------------
#[verifier::memoize]
spec fn mn(h: nat) -> nat
    decreases h
{
    if h == 0 { 0 } else if h == 1 { 1 } else { 1 + mn((h - 1) as nat) + mn((h - 2) as nat) }
}

proof fn lemma_mn_mono(a: nat, b: nat)
    requires a <= b,
    ensures mn(a) <= mn(b),
    decreases b
{
    if a < b { lemma_mn_mono(a, (b - 1) as nat); }
}

proof fn lemma_size<K, V>(t: OptNode<K, V>)
    requires shape(t),
    ensures els(t).len() >= mn(ht(t)),
    decreases t
{
    node(t);
    if t is Some {
        lemma_size(lf(t));
        lemma_size(rt(t));
        let (a, b) = (ht(lf(t)), ht(rt(t)));
        if ht(t) >= 2 { lemma_mn_mono((ht(t) - 2) as nat, if a < b { a } else { b }); }
    }
}

// a tree with at most 2^66 entries is at most 100 tall
spec fn small<K, V>(t: OptNode<K, V>) -> bool { els(t).len() <= 0x3_ffff_ffff_ffff_ffff }

proof fn lemma_ht<K, V>(t: OptNode<K, V>)
    requires shape(t), small(t),
    ensures ht(t) <= 100,
{
    lemma_size(t);
    assert(mn(101) > 0x3_ffff_ffff_ffff_ffff) by (compute);
    if ht(t) > 100 { lemma_mn_mono(101, ht(t)); }
}

// --- merging ----------------------------------------------------------------
// what a lookup in the merge of two maps must return, from the two lookups
spec fn mrel<K, V, F: FnMut((K, V), (K, V)) -> Option<(K, V)>>(
    f: F, lk: bool, rk: bool, a: Option<(K, V)>, b: Option<(K, V)>, o: Option<(K, V)>,
) -> bool {
    match (a, b) {
        (None, None) => o is None,
        (Some(_), None) => o == (if lk { a } else { None }),
        (None, Some(_)) => o == (if rk { b } else { None }),
        (Some(x), Some(y)) => f.ensures((x, y), o),
    }
}

spec fn is_merge<K: Ord, V, F: FnMut((K, V), (K, V)) -> Option<(K, V)>>(
    f: F, lk: bool, rk: bool, s1: Seq<(K, V)>, s2: Seq<(K, V)>, out: Seq<(K, V)>,
) -> bool {
    &&& sorted(out)
    &&& forall|k: K| mrel(f, lk, rk, m_get(s1, kcut(k)), m_get(s2, kcut(k)), #[trigger] m_get(out, kcut(k)))
}

// the conflict function accepts everything and keeps the key
spec fn key_law<K: Ord, V, F: FnMut((K, V), (K, V)) -> Option<(K, V)>>(f: F) -> bool {
    &&& forall|x: (K, V), y: (K, V)| #[trigger] f.requires((x, y))
    &&& forall|x: (K, V), y: (K, V), o: Option<(K, V)>| #[trigger] f.ensures((x, y), o) && o is Some
            && x.0.cmp_spec(&y.0) is Equal ==> x.0.cmp_spec(&(o->0).0) is Equal
}

proof fn lemma_lt_equiv<K: Ord, V>(s: Seq<(K, V)>, a: K, b: K)
    requires lawful::<K>(), a.cmp_spec(&b) is Equal,
    ensures all_lt(s, a) == all_lt(s, b), all_gt(s, a) == all_gt(s, b),
{
    reveal(all_lt);
    reveal(all_gt);
    assert forall|x: K| lt(x, a) == lt(x, b) && lt(a, x) == lt(b, x) by { law_trans(a, b, x); }
}

spec fn ocat<K, V>(l: Seq<(K, V)>, m: Option<(K, V)>, r: Seq<(K, V)>) -> Seq<(K, V)> {
    match m { Some(y) => cat(l, y, r), None => l + r }
}

proof fn lemma_plus_cat_gets<K: Ord, V>(l: Seq<(K, V)>, m: Option<(K, V)>, r: Seq<(K, V)>, p: K)
    requires lawful::<K>(), sorted(l), sorted(r), all_lt(l, p), all_gt(r, p),
        m is Some ==> p.cmp_spec(&(m->0).0) is Equal,
    ensures
        sorted(ocat(l, m, r)),
        forall|k: K| #[trigger] m_get(ocat(l, m, r), kcut(k)) == (match k.cmp_spec(&p) {
            Ordering::Less => m_get(l, kcut(k)),
            Ordering::Equal => m,
            Ordering::Greater => m_get(r, kcut(k)),
        }),
{
    let s = ocat(l, m, r);
    if m is Some {
        lemma_lt_equiv(l, p, (m->0).0);
        lemma_lt_equiv(r, p, (m->0).0);
        lemma_sorted_cat(l, m->0, r);
    } else {
        lemma_kcut_mono(p);
        lemma_get_plus(l, p, r, kcut(p));
    }
    assert forall|k: K| #[trigger] m_get(s, kcut(k)) == (match k.cmp_spec(&p) {
            Ordering::Less => m_get(l, kcut(k)),
            Ordering::Equal => m,
            Ordering::Greater => m_get(r, kcut(k)),
        }) by {
        lemma_kcut_mono(k);
        match m {
            Some(y) => { lemma_get_cat(l, y, r, kcut(k)); law_trans(p, y.0, k); },
            None => { lemma_get_plus(l, p, r, kcut(k)); },
        }
    }
}

proof fn lemma_merge_bounds<K: Ord, V, F: FnMut((K, V), (K, V)) -> Option<(K, V)>>(
    f: F, lk: bool, rk: bool, s1: Seq<(K, V)>, s2: Seq<(K, V)>, out: Seq<(K, V)>, p: K,
)
    requires lawful::<K>(), sorted(s1), sorted(s2), is_merge(f, lk, rk, s1, s2, out),
    ensures
        all_lt(s1, p) && all_lt(s2, p) ==> all_lt(out, p),
        all_gt(s1, p) && all_gt(s2, p) ==> all_gt(out, p),
{
    lemma_all_lt_gets(s1, p);
    lemma_all_lt_gets(s2, p);
    lemma_all_lt_gets(out, p);
    assert forall|x: K| (#[trigger] m_get(out, kcut(x))) is Some implies
        m_get(s1, kcut(x)) is Some || m_get(s2, kcut(x)) is Some by {}
}

proof fn lemma_merge_step<K: Ord, V, F: FnMut((K, V), (K, V)) -> Option<(K, V)>>(
    f: F, lk: bool, rk: bool,
    l1: Seq<(K, V)>, e: (K, V), r1: Seq<(K, V)>,
    l2: Seq<(K, V)>, m: Option<(K, V)>, r2: Seq<(K, V)>,
    lo: Seq<(K, V)>, kv: Option<(K, V)>, ro: Seq<(K, V)>,
)
    requires
        lawful::<K>(), key_law(f), sorted(cat(l1, e, r1)), sorted(l2), sorted(r2),
        below(l2, kcut(e.0)), above(r2, kcut(e.0)),
        m is Some ==> e.0.cmp_spec(&(m->0).0) is Equal,
        is_merge(f, lk, rk, l1, l2, lo), is_merge(f, lk, rk, r1, r2, ro),
        mrel(f, lk, rk, Some(e), m, kv),
    ensures
        is_merge(f, lk, rk, cat(l1, e, r1),
            ocat(l2, m, r2), ocat(lo, kv, ro)),
{
    let s1 = cat(l1, e, r1);
    let s2 = ocat(l2, m, r2);
    let out = ocat(lo, kv, ro);
    lemma_sorted_cat(l1, e, r1);
    lemma_kcut_sides(l2, e.0);
    lemma_kcut_sides(r2, e.0);
    lemma_merge_bounds(f, lk, rk, l1, l2, lo, e.0);
    lemma_merge_bounds(f, lk, rk, r1, r2, ro, e.0);
    law_flip(e.0, e.0);
    lemma_plus_cat_gets(l1, Some(e), r1, e.0);
    assert(ocat(l1, Some(e), r1) == s1);
    lemma_plus_cat_gets(l2, m, r2, e.0);
    assert(kv is Some ==> e.0.cmp_spec(&(kv->0).0) is Equal);
    lemma_plus_cat_gets(lo, kv, ro, e.0);
    assert forall|k: K| mrel(f, lk, rk, m_get(s1, kcut(k)), m_get(s2, kcut(k)), #[trigger] m_get(out, kcut(k))) by {
        assert(mrel(f, lk, rk, m_get(l1, kcut(k)), m_get(l2, kcut(k)), m_get(lo, kcut(k))));
        assert(mrel(f, lk, rk, m_get(r1, kcut(k)), m_get(r2, kcut(k)), m_get(ro, kcut(k))));
        assert(m_get(s1, kcut(k)) == (match k.cmp_spec(&e.0) {
            Ordering::Less => m_get(l1, kcut(k)),
            Ordering::Equal => Some(e),
            Ordering::Greater => m_get(r1, kcut(k)),
        }));
        assert(m_get(s2, kcut(k)) == (match k.cmp_spec(&e.0) {
            Ordering::Less => m_get(l2, kcut(k)),
            Ordering::Equal => m,
            Ordering::Greater => m_get(r2, kcut(k)),
        }));
    }
}
#item enum NoMatchMergePolicy
#item struct Merger +attr=verifier::reject_recursive_types(K) +attr=verifier::reject_recursive_types(V) +attr=verifier::reject_recursive_types(F)
#fn Merger::merge -> r
    requires
        wf(opt_t1), wf(opt_t2), lawful::<K>(), key_law(old(self).deconflict),
        els(opt_t1).len() + els(opt_t2).len() <= 0x3_ffff_ffff_ffff_ffff,
    ensures
        *final(self) == *old(self),
        shape(r),
        is_merge(old(self).deconflict, old(self).on_only_left is Keep, old(self).on_only_right is Keep,
            els(opt_t1), els(opt_t2), els(r)),
        els(r).len() <= els(opt_t1).len() + els(opt_t2).len(),
    decreases opt_t1
@begin
    broadcast use {lemma_sorted_empty, lemma_cat_len};
    let ghost (g1, g2) = (opt_t1, opt_t2);
    let ghost me = *self;
    proof {
        node(g1); node(g2); lemma_ht(g1); lemma_ht(g2); lemma_lawful_refl::<K>();
        assert forall|k: K| g1 is None implies #[trigger] m_get(els(g1), kcut(k)) is None by { lemma_idx_empty(els(g1), kcut(k)); }
        assert forall|k: K| g2 is None implies #[trigger] m_get(els(g2), kcut(k)) is None by { lemma_idx_empty(els(g2), kcut(k)); }
        assert forall|k: K| #[trigger] m_get(Seq::<(K, V)>::empty(), kcut(k)) is None by { lemma_idx_empty(Seq::<(K, V)>::empty(), kcut(k)); }
        if g1 is Some { lemma_sorted_cat(els(lf(g1)), en(g1), els(rt(g1))); }
    }
@before ?let lf_int = 
    proof { assert(qcut::<K, K>(en(g1).0) == kcut(en(g1).0)); }
    let ghost (a2, m2, b2) = (els(t2_lt), t2_kv, els(t2_gt));
@before ?let kv = 
    proof { lemma_ht(lf_int); lemma_ht(rt_int); }
@before ?join2\(
    proof {
        lemma_merge_step(me.deconflict, me.on_only_left is Keep, me.on_only_right is Keep,
            els(lf(g1)), en(g1), els(rt(g1)), a2, m2, b2, els(lf_int), kv, els(rt_int));
    }
#fn intersect -> r
    requires
        wf(opt_t1), wf(opt_t2), lawful::<K>(),
        els(opt_t1).len() + els(opt_t2).len() <= 0x3_ffff_ffff_ffff_ffff,
    ensures
        wf(r), els(r).len() <= els(opt_t1).len() + els(opt_t2).len(),
        forall|k: K| #[trigger] m_get(els(r), kcut(k)) ==
            s_and(m_get(els(opt_t1), kcut(k)), m_get(els(opt_t2), kcut(k))),
@sub deconflict: &mut \| => deconflict: |
@closure 0 (l: (K, V), r: (K, V)) -> (res: Option<(K, V)>)
    ensures res == Some(l),
@before ?merger.merge
    proof { assert forall|x: (K, V)| #[trigger] x.0.cmp_spec(&x.0) is Equal by { law_flip(x.0, x.0); } }
#fn diff -> r
    requires
        wf(opt_t1), wf(opt_t2), lawful::<K>(),
        els(opt_t1).len() + els(opt_t2).len() <= 0x3_ffff_ffff_ffff_ffff,
    ensures
        wf(r), els(r).len() <= els(opt_t1).len() + els(opt_t2).len(),
        forall|k: K| #[trigger] m_get(els(r), kcut(k)) ==
            s_sub(m_get(els(opt_t1), kcut(k)), m_get(els(opt_t2), kcut(k))),
@sub deconflict: &mut \| => deconflict: |
@closure 0 (l: (K, V), r: (K, V)) -> (res: Option<(K, V)>)
    ensures res is None,
#fn sym_diff -> r
    requires
        wf(opt_t1), wf(opt_t2), lawful::<K>(),
        els(opt_t1).len() + els(opt_t2).len() <= 0x3_ffff_ffff_ffff_ffff,
    ensures
        wf(r), els(r).len() <= els(opt_t1).len() + els(opt_t2).len(),
        forall|k: K| #[trigger] m_get(els(r), kcut(k)) ==
            s_xor(m_get(els(opt_t1), kcut(k)), m_get(els(opt_t2), kcut(k))),
@sub deconflict: &mut \| => deconflict: |
@closure 0 (l: (K, V), r: (K, V)) -> (res: Option<(K, V)>)
    ensures res is None,
#fn union -> r
    requires
        wf(opt_t1), wf(opt_t2), lawful::<K>(),
        els(opt_t1).len() + els(opt_t2).len() <= 0x3_ffff_ffff_ffff_ffff,
    ensures
        wf(r), els(r).len() <= els(opt_t1).len() + els(opt_t2).len(),
        forall|k: K| #[trigger] m_get(els(r), kcut(k)) ==
            s_or(m_get(els(opt_t1), kcut(k)), m_get(els(opt_t2), kcut(k))),
@sub deconflict: &mut \| => deconflict: |
@closure 0 (l: (K, V), r: (K, V)) -> (res: Option<(K, V)>)
    ensures res == Some(r),
#fn len -> r
    requires els(*opt_node).len() <= usize::MAX,
    ensures r == els(*opt_node).len(),
    decreases *opt_node
@begin
    broadcast use lemma_cat_len;
    proof { node(*opt_node); }
@closure 0 (r: &Arc<Node<K, V>>) -> (res: usize)
    requires els(Some(*r)).len() <= usize::MAX, Some(*r) == *opt_node,
    ensures res == els(Some(*r)).len(),
#item macro chk_map
#item struct AvlMap
#prop C15
#fn Clone@AvlMap::clone -> r +keeptrait
    ensures r == *self,
#raw
#raw
// --- the public map ---------------------------------------------------------
spec fn mels<K, V>(m: AvlMap<K, V>) -> Seq<(K, V)> { els(m.root) }

// representation invariant of AvlMap
spec fn mwf<K: Ord, V>(m: AvlMap<K, V>) -> bool {
    wf(m.root) && m.len == els(m.root).len()
}

proof fn lemma_mwf<K: Ord, V>(m: AvlMap<K, V>)
    requires mwf(m),
    ensures small(m.root), ht(m.root) <= 100,
{
    lemma_ht(m.root);
}
#prop C01 C02 C03
#fn AvlMap::new -> r
    ensures mels(r) == Seq::<(K, V)>::empty(), r.len == 0, r.root is None,
#fn AvlMap::len -> r
    ensures r == self.len,
#fn AvlMap::is_empty -> r
    ensures r == (self.len == 0),
#prop C01 C02
#fn AvlMap::clear
    ensures mels(*final(self)) == Seq::<(K, V)>::empty(), final(self).len == 0, final(self).root is None,
#prop C01 C03
#fn AvlMap::append
    requires mwf(*old(self)), mwf(*old(other)), lawful::<K>(), old(self).len + old(other).len <= usize::MAX,
    ensures
        mwf(*final(self)), mwf(*final(other)), mels(*final(other)) == Seq::<(K, V)>::empty(),
        forall|k: K| #[trigger] m_get(mels(*final(self)), kcut(k)) ==
            s_or(m_get(mels(*old(self)), kcut(k)), m_get(mels(*old(other)), kcut(k))),
@begin
    broadcast use lemma_sorted_empty;
    proof { lemma_mwf(*self); lemma_mwf(*other); node(None::<Arc<Node<K, V>>>); }
#raw
proof fn get_facts<K: Ord, V>(t: OptNode<K, V>, c: Cut<K>)
    requires lawful::<K>(), mono(c), sorted(els(t)),
    ensures
        t is None ==> m_get(els(t), c) is None,
        t is Some ==> sorted(els(lf(t))) && sorted(els(rt(t))) && m_get(els(t), c) == (match c(en(t).0) {
            Ordering::Less => m_get(els(lf(t)), c),
            Ordering::Equal => Some(en(t)),
            Ordering::Greater => m_get(els(rt(t)), c),
        }),
{
    node(t);
    rm_facts(t, c);
}
#prop C02
#fn AvlMap::first_key_value -> r +where=K:Ord
    requires mwf(*self),
    ensures
        mels(*self).len() == 0 ==> r is None,
        mels(*self).len() > 0 ==> r is Some && (*(r->0).0, *(r->0).1) == mels(*self)[0],
@begin
    broadcast use lemma_cat_len;
    proof { node(self.root); }
@loop 0
    invariant mels(*self).len() > 0, els(Some(*curr)).len() > 0, els(Some(*curr))[0] == mels(*self)[0],
    ensures curr.left is None,
    decreases *curr
@body 0
    broadcast use lemma_cat_len;
    proof { node(Some(*curr)); node(lf(Some(*curr))); }
@tail
    proof { node(Some(*curr)); }
#fn AvlMap::get_key_value -> r +where=K:Ord
    requires mwf(*self), lawful_q::<K, Q>(),
    ensures match m_get(mels(*self), qcut::<K, Q>(*k)) {
        None => r is None,
        Some(e) => r is Some && (*(r->0).0, *(r->0).1) == e,
    },
@begin
    let ghost c = qcut::<K, Q>(*k);
    proof { lemma_qcut_mono::<K, Q>(*k); }
@loop 0
    invariant
        lawful_q::<K, Q>(), c == qcut::<K, Q>(*k), mono(c), sorted(els(*curr)),
        m_get(mels(*self), c) == m_get(els(*curr), c),
    ensures curr is None,
    decreases *curr
@body 0
    proof { get_facts(*curr, c); }
@tail
    proof { get_facts(*curr, c); }
#fn AvlMap::get -> r +where=K:Ord
    requires mwf(*self), lawful_q::<K, Q>(),
    ensures match m_get(mels(*self), qcut::<K, Q>(*key)) {
        None => r is None,
        Some(e) => r is Some && *(r->0) == e.1,
    },
@closure 0 (e: (&K, &V)) -> (r: &V)
    ensures *r == *(e.1),
#fn AvlMap::contains_key -> r +where=K:Ord
    requires mwf(*self), lawful_q::<K, Q>(),
    ensures r == has_key(mels(*self), qcut::<K, Q>(*key)),
#fn AvlMap::last_key_value -> r +where=K:Ord
    requires mwf(*self),
    ensures
        mels(*self).len() == 0 ==> r is None,
        mels(*self).len() > 0 ==> r is Some && (*(r->0).0, *(r->0).1) == mels(*self).last(),
@begin
    broadcast use lemma_cat_len;
    proof { node(self.root); }
@loop 0
    invariant
        *prev is None ==> *curr == self.root,
        *prev is Some ==> els(*prev).last() == mels(*self).last() && rt(*prev) == *curr && mels(*self).len() > 0,
    ensures *curr is None,
    decreases *curr
@body 0
    broadcast use lemma_cat_len;
    proof { node(*curr); node(*prev); }
@tail
    proof { node(*prev); node(*curr); }
@closure 0 (rc: &Arc<Node<K, V>>) -> (r: (&K, &V))
    ensures *(r.0) == rc.key, *(r.1) == rc.val,
#prop C01 C02
#fn AvlMap::insert -> r
    requires mwf(*old(self)), lawful::<K>(), old(self).len < usize::MAX,
    ensures
        mwf(*final(self)),
        mels(*final(self)) == m_ins(mels(*old(self)), key, val),
        r == val_of(m_get(mels(*old(self)), kcut(key))),
@begin
    proof { lemma_mwf(*self); lemma_ins_sorted(mels(*self), key, val); }
#fn AvlMap::remove_entry -> r
    requires mwf(*old(self)), lawful_q::<K, Q>(),
    ensures
        mwf(*final(self)),
        mels(*final(self)) == m_rm(mels(*old(self)), qcut::<K, Q>(*key)),
        r == m_get(mels(*old(self)), qcut::<K, Q>(*key)),
@begin
    proof { lemma_mwf(*self); lemma_rm_sorted(mels(*self), qcut::<K, Q>(*key)); }
#fn AvlMap::remove -> r
    requires mwf(*old(self)), lawful_q::<K, Q>(),
    ensures
        mwf(*final(self)),
        mels(*final(self)) == m_rm(mels(*old(self)), qcut::<K, Q>(*key)),
        r == val_of(m_get(mels(*old(self)), qcut::<K, Q>(*key))),
@closure 0 (e: (K, V)) -> (r: V)
    ensures r == e.1,
#fn AvlMap::pop_first -> r +where=K:Ord
    requires mwf(*old(self)), lawful::<K>(),
    ensures
        mwf(*final(self)),
        r is None <==> mels(*old(self)).len() == 0,
        r is None ==> mels(*final(self)) == mels(*old(self)),
        r is Some ==> mels(*old(self)) == seq![r->0] + mels(*final(self)),
@begin
    broadcast use group_order;
    proof { lemma_mwf(*self); node(self.root); }
@tail
    proof { assert(seq![kv] + mels(*self) =~= mels(*old(self))); }
#fn AvlMap::pop_last -> r +where=K:Ord
    requires mwf(*old(self)), lawful::<K>(),
    ensures
        mwf(*final(self)),
        r is None <==> mels(*old(self)).len() == 0,
        r is None ==> mels(*final(self)) == mels(*old(self)),
        r is Some ==> mels(*old(self)) == mels(*final(self)).push(r->0),
@begin
    broadcast use group_order;
    proof { lemma_mwf(*self); node(self.root); }
@tail
    proof { assert(mels(*self).push(kv) =~= mels(*old(self))); }
#raw
// re-inserting the entry that divided a sorted sequence puts it at the front
proof fn lemma_ins_front<K: Ord, V>(s: Seq<(K, V)>)
    requires lawful::<K>(), sorted(s),
    ensures
        forall|l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>| s == #[trigger] cat(l, e, r) ==>
            m_ins(r, e.0, e.1) == cat(Seq::empty(), e, r) && s == l + cat(Seq::empty(), e, r) && m_get(r, kcut(e.0)) is None,
        forall|r: Seq<(K, V)>, c: Cut<K>| #[trigger] above(r, c) && r.len() > 0 ==> c(r[0].0) is Less,
{
    reveal(above);
    assert forall|l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>| s == #[trigger] cat(l, e, r) implies
            m_ins(r, e.0, e.1) == cat(Seq::empty(), e, r) && s == l + cat(Seq::empty(), e, r) && m_get(r, kcut(e.0)) is None by {
        lemma_sorted_cat(l, e, r);
        reveal(all_gt);
        if r.len() > 0 { assert(lt(e.0, r[0].0)); }
        lemma_idx_unique(r, kcut(e.0), 0);
        assert(m_ins(r, e.0, e.1) =~= cat(Seq::empty(), e, r));
        assert(s =~= l + cat(Seq::empty(), e, r));
    }
}
#prop C01 C03
#fn AvlMap::split_off -> r
    requires mwf(*old(self)), lawful_q::<K, Q>(),
    ensures
        mwf(*final(self)), mwf(r),
        mels(*old(self)) == mels(*final(self)) + mels(r),
        below(mels(*final(self)), qcut::<K, Q>(*key)),
        mels(r).len() > 0 ==> !(qcut::<K, Q>(*key)(mels(r)[0].0) is Greater),
@begin
    broadcast use group_order;
    proof { lemma_mwf(*self); node(self.root); lemma_ins_front(els(self.root)); }
#fn AvlMap::new_union -> r
    requires mwf(lhs), mwf(rhs), lawful::<K>(), lhs.len + rhs.len <= usize::MAX,
    ensures
        mwf(r),
        forall|k: K| #[trigger] m_get(mels(r), kcut(k)) == s_or(m_get(mels(lhs), kcut(k)), m_get(mels(rhs), kcut(k))),
#fn AvlMap::new_diff -> r
    requires mwf(lhs), mwf(rhs), lawful::<K>(), lhs.len + rhs.len <= usize::MAX,
    ensures
        mwf(r),
        forall|k: K| #[trigger] m_get(mels(r), kcut(k)) == s_sub(m_get(mels(lhs), kcut(k)), m_get(mels(rhs), kcut(k))),
#fn AvlMap::new_sym_diff -> r
    requires mwf(lhs), mwf(rhs), lawful::<K>(), lhs.len + rhs.len <= usize::MAX,
    ensures
        mwf(r),
        forall|k: K| #[trigger] m_get(mels(r), kcut(k)) == s_xor(m_get(mels(lhs), kcut(k)), m_get(mels(rhs), kcut(k))),
#fn AvlMap::new_intersect -> r
    requires mwf(lhs), mwf(rhs), lawful::<K>(), lhs.len + rhs.len <= usize::MAX,
    ensures
        mwf(r),
        forall|k: K| #[trigger] m_get(mels(r), kcut(k)) == s_and(m_get(mels(lhs), kcut(k)), m_get(mels(rhs), kcut(k))),
#raw
// u is t with the value stored at c replaced by v (nothing else changes)
#[verifier::opaque]
spec fn upd<K: Ord, V>(t: OptNode<K, V>, u: OptNode<K, V>, c: Cut<K>, v: V) -> bool {
    &&& shape(u) && ht(u) == ht(t)
    &&& els(u) == m_upd(els(t), c, v)
}
proof fn upd_facts<K: Ord, V>(t: OptNode<K, V>, c: Cut<K>)
    requires lawful::<K>(), mono(c), sorted(els(t)),
    ensures
        t is None ==> m_upd::<K, V>(els(t), c, arbitrary()) == els(t),
        t is Some ==> {
            let (l, e, r) = (els(lf(t)), en(t), els(rt(t)));
            forall|v: V| #[trigger] m_upd(els(t), c, v) == (match c(e.0) {
                Ordering::Less => cat(m_upd(l, c, v), e, r),
                Ordering::Equal => cat(l, (e.0, v), r),
                Ordering::Greater => cat(l, e, m_upd(r, c, v)),
            })
        },
{
    node(t);
    lemma_idx_empty(Seq::<(K, V)>::empty(), c);
    if t is Some {
        let (l, e, r) = (els(lf(t)), en(t), els(rt(t)));
        lemma_idx_cat(l, e, r, c);
        assert forall|v: V| #[trigger] m_upd(els(t), c, v) == (match c(e.0) {
                Ordering::Less => cat(m_upd(l, c, v), e, r),
                Ordering::Equal => cat(l, (e.0, v), r),
                Ordering::Greater => cat(l, e, m_upd(r, c, v)),
            }) by {
            assert(m_upd(els(t), c, v) =~= (match c(e.0) {
                Ordering::Less => cat(m_upd(l, c, v), e, r),
                Ordering::Equal => cat(l, (e.0, v), r),
                Ordering::Greater => cat(l, e, m_upd(r, c, v)),
            }));
        }
    }
}
#raw
// an update below the root is an update of the whole tree
spec fn same_but<K, V>(t: OptNode<K, V>, u: OptNode<K, V>) -> bool {
    t is Some && u is Some && t->0.key == u->0.key && t->0.left_ht == u->0.left_ht && t->0.right_ht == u->0.right_ht
}
proof fn lemma_upd<K: Ord, V>(c: Cut<K>)
    ensures
        forall|t: OptNode<K, V>, u: OptNode<K, V>, v: V| #[trigger] upd(t, u, c, v) ==> 
            shape(u) && ht(u) == ht(t) && els(u) == m_upd(els(t), c, v),
        forall|t: OptNode<K, V>, v: V| shape(t) && !has_key(els(t), c) ==> #[trigger] upd(t, t, c, v),
{
    reveal(upd);
}
proof fn upd_step<K: Ord, V>(t: OptNode<K, V>, c: Cut<K>)
    requires lawful::<K>(), mono(c), wf(t), t is Some,
    ensures
        forall|u: OptNode<K, V>, v: V| c(en(t).0) is Less && same_but(t, u) && rt(u) == rt(t) && en(u) == en(t)
            && upd(lf(t), lf(u), c, v) ==> #[trigger] upd(t, u, c, v),
        forall|u: OptNode<K, V>, v: V| c(en(t).0) is Equal && same_but(t, u) && rt(u) == rt(t) && lf(u) == lf(t)
            && en(u).1 == v ==> #[trigger] upd(t, u, c, v),
        forall|u: OptNode<K, V>, v: V| c(en(t).0) is Greater && same_but(t, u) && lf(u) == lf(t) && en(u) == en(t)
            && upd(rt(t), rt(u), c, v) ==> #[trigger] upd(t, u, c, v),
{
    node(t);
    reveal(upd);
    upd_facts(t, c);
    assert forall|u: OptNode<K, V>, v: V| same_but(t, u) && (match c(en(t).0) {
            Ordering::Less => rt(u) == rt(t) && en(u) == en(t) && upd(lf(t), lf(u), c, v),
            Ordering::Equal => rt(u) == rt(t) && lf(u) == lf(t) && en(u).1 == v,
            Ordering::Greater => lf(u) == lf(t) && en(u) == en(t) && upd(rt(t), rt(u), c, v),
        }) implies #[trigger] upd(t, u, c, v) by {
        node(u);
        let _ = m_upd(els(t), c, v);
    }
}
#prop C01 C02
#fn AvlMap::get_mut -> r +where=K:Ord +noiso
    requires mwf(*old(self)), lawful_q::<K, Q>(),
    ensures
        r is Some <==> has_key(mels(*old(self)), qcut::<K, Q>(*k)),
        r is None ==> mels(*final(self)) == mels(*old(self)),
        r is Some ==> *(r->0) == (m_get(mels(*old(self)), qcut::<K, Q>(*k))->0).1
            && mels(*final(self)) == m_upd(mels(*old(self)), qcut::<K, Q>(*k), *final(r->0)),
        mwf(*final(self)), final(self).len == old(self).len,
@begin
    let ghost c = qcut::<K, Q>(*k);
    proof { lemma_qcut_mono::<K, Q>(*k); lemma_mwf(*self); }
    let ghost fin = final(self).root;
    proof { lemma_upd::<K, V>(c); lemma_upd_sorted(els(self.root), c); }
    broadcast use lemma_sorted_empty;
    proof { node(None::<Arc<Node<K, V>>>); get_facts(None::<Arc<Node<K, V>>>, c); }
    let ghost g0 = self.root;
    proof {
        assert forall|v: V| #[trigger] upd(g0, fin, c, v) implies
            wf(fin) && els(fin).len() == els(g0).len() && els(fin) == m_upd(els(g0), c, v) by {
            let _ = m_upd(els(g0), c, v);
        }
    }
@loop 0
    invariant
        lawful_q::<K, Q>(), c == qcut::<K, Q>(*k), mono(c), wf(*curr),
        m_get(els(g0), c) == m_get(els(*curr), c),
        forall|v: V| #![trigger upd(g0, fin, c, v)] #![trigger m_upd(els(g0), c, v)]
            upd(*curr, *final(curr), c, v) ==> upd(g0, fin, c, v),
    ensures *curr is None,
    decreases *curr
@body 0
    proof { node(Some(*rc)); get_facts(Some(*rc), c); upd_step(Some(*rc), c); }
@tail
    proof { let v: V = arbitrary(); assert(upd(g0, fin, c, v)); }
#raw
// what `retain` may leave behind for one entry: the closure's verdict decides
#[verifier::prophetic]
spec fn decided<K, V, F: FnMut(&K, &mut V) -> bool>(f: F, k: K, v: V, w: V, keep: bool) -> bool {
    exists|m: &mut V| *m == v && *final(m) == w && #[trigger] f.ensures((&k, m), keep)
}
#[verifier::prophetic]
spec fn kept<K, V, F: FnMut(&K, &mut V) -> bool>(f: F, a: Option<(K, V)>, o: Option<(K, V)>) -> bool {
    match a {
        None => o is None,
        Some(e) => match o {
            None => exists|w: V| decided(f, e.0, e.1, w, false),
            Some(x) => x.0 == e.0 && decided(f, e.0, e.1, x.1, true),
        },
    }
}
#[verifier::prophetic]
spec fn is_retain<K: Ord, V, F: FnMut(&K, &mut V) -> bool>(f: F, s: Seq<(K, V)>, out: Seq<(K, V)>) -> bool {
    &&& sorted(out)
    &&& out.len() <= s.len()
    &&& forall|k: K| kept(f, m_get(s, kcut(k)), #[trigger] m_get(out, kcut(k)))
}
proof fn lemma_retain_step<K: Ord, V, F: FnMut(&K, &mut V) -> bool>(
    f: F, l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, lo: Seq<(K, V)>, kv: Option<(K, V)>, ro: Seq<(K, V)>,
)
    requires
        lawful::<K>(), sorted(cat(l, e, r)), is_retain(f, l, lo), is_retain(f, r, ro), kept(f, Some(e), kv),
        kv is Some ==> (kv->0).0 == e.0,
    ensures is_retain(f, cat(l, e, r), ocat(lo, kv, ro)),
{
    lemma_sorted_cat(l, e, r);
    law_flip(e.0, e.0);
    lemma_plus_cat_gets(l, Some(e), r, e.0);
    assert(ocat(l, Some(e), r) == cat(l, e, r));
    lemma_all_lt_gets(l, e.0);
    lemma_all_lt_gets(r, e.0);
    lemma_all_lt_gets(lo, e.0);
    lemma_all_lt_gets(ro, e.0);
    lemma_cat_len(l, e, r);
    assert forall|x: K| (#[trigger] m_get(lo, kcut(x))) is Some implies m_get(l, kcut(x)) is Some by {}
    assert forall|x: K| (#[trigger] m_get(ro, kcut(x))) is Some implies m_get(r, kcut(x)) is Some by {}
    lemma_plus_cat_gets(lo, kv, ro, e.0);
    let (s, out) = (cat(l, e, r), ocat(lo, kv, ro));
    assert forall|k: K| kept(f, m_get(s, kcut(k)), #[trigger] m_get(out, kcut(k))) by {
        assert(kept(f, m_get(l, kcut(k)), m_get(lo, kcut(k))));
        assert(kept(f, m_get(r, kcut(k)), m_get(ro, kcut(k))));
        let _ = m_get(ocat(l, Some(e), r), kcut(k));
    }
}
#prop C01 C03
#fn retain -> res
    requires
        wf(root), lawful::<K>(), els(root).len() <= usize::MAX,
        forall|k: &K, v: &mut V| #[trigger] (*old(f)).requires((k, v)),
    ensures
        *final(f) == *old(f),
        shape(res.0), is_retain(*old(f), els(root), els(res.0)), res.1 == els(res.0).len(),
    decreases root
@begin
    broadcast use {lemma_sorted_empty, lemma_cat_len};
    let ghost g = root;
    proof {
        node(g); lemma_ht(g);
        assert forall|k: K| #[trigger] m_get(Seq::<(K, V)>::empty(), kcut(k)) is None by { lemma_idx_empty(Seq::<(K, V)>::empty(), kcut(k)); }
        if g is Some { lemma_sorted_cat(els(lf(g)), en(g), els(rt(g))); }
    }
@before ?if f\(
    proof { lemma_ht(left); lemma_ht(right); }
    let ghost (v0, gl, gr) = (v, els(left), els(right));
@before ?\(join\(
    proof {
        assert(decided(*old(f), en(g).0, v0, v, true));
        lemma_retain_step(*old(f), els(lf(g)), en(g), els(rt(g)), gl, Some((en(g).0, v)), gr);
    }
@before ?\(join2\(
    proof {
        assert(decided(*old(f), en(g).0, v0, v, false));
        assert(v0 == en(g).1);
        assert(decided(*old(f), en(g).0, en(g).1, v, false));
        assert(exists|w: V| decided(*old(f), en(g).0, en(g).1, w, false));
        assert(kept(*old(f), Some(en(g)), None));
        lemma_retain_step(*old(f), els(lf(g)), en(g), els(rt(g)), gl, None, gr);
    }
#fn AvlMap::retain
    requires
        mwf(*old(self)), lawful::<K>(),
        forall|k: &K, v: &mut V| #[trigger] f.requires((k, v)),
    ensures mwf(*final(self)), is_retain(f, mels(*old(self)), mels(*final(self))),
#fn AvlMap::new_join -> r
    requires
        mwf(lhs), mwf(rhs), lawful::<K>(), lhs.len + rhs.len < usize::MAX,
        all_lt(mels(lhs), key), all_gt(mels(rhs), key),
    ensures mwf(r), mels(r) == cat(mels(lhs), (key, val), mels(rhs)),
@sub debug_assert!\(.*\); => 
@begin
    broadcast use group_order;
    proof { lemma_mwf(lhs); lemma_mwf(rhs); }
#prop C01 C03
#fn Extend@AvlMap::extend +nth=1
    requires mwf(*old(self)), lawful::<K>(), old(self).len + yields(iter).len() <= usize::MAX,
    ensures mwf(*final(self)), mels(*final(self)) == m_ext(mels(*old(self)), yields(iter)),
@sub \bin iter\b => in it__: vec_of(iter)
@begin
    let ghost s0 = mels(*self);
    let ghost src = yields(iter);
    proof { lemma_mwf(*self); }
@loop 0
    invariant
        it__.seq() == src, 0 <= it__.index@ <= src.len(),
        mwf(*self), lawful::<K>(), sorted(s0), s0.len() + src.len() <= usize::MAX,
        mels(*self) == m_ext(s0, src.take(it__.index@)),
@body 0
    proof {
        lemma_mwf(*self);
        lemma_ext(s0, src.take(it__.index@));
        lemma_ext_step(s0, src, it__.index@);
    }
@past 0
    proof { assert(src.take(src.len() as int) =~= src); }
#raw
// the entries behind borrowed pairs
spec fn owned<K, V>(s: Seq<(&K, &V)>) -> Seq<(K, V)> { s.map_values(|e: (&K, &V)| (*e.0, *e.1)) }
#fn Extend@AvlMap::extend +nth=0 +name=extend_ref
    requires mwf(*old(self)), lawful::<K>(), old(self).len + yields(iter).len() <= usize::MAX,
    ensures mwf(*final(self)), mels(*final(self)) == m_ext(mels(*old(self)), owned(yields(iter))),
@sub \bin iter\b => in it__: vec_of(iter)
@begin
    let ghost s0 = mels(*self);
    let ghost src = yields(iter);
    proof { lemma_mwf(*self); }
@loop 0
    invariant
        it__.seq() == src, 0 <= it__.index@ <= src.len(),
        mwf(*self), lawful::<K>(), sorted(s0), s0.len() + src.len() <= usize::MAX,
        mels(*self) == m_ext(s0, owned(src).take(it__.index@)),
@body 0
    proof {
        lemma_mwf(*self);
        lemma_ext(s0, owned(src).take(it__.index@));
        lemma_ext_step(s0, owned(src), it__.index@);
    }
@past 0
    proof { assert(owned(src).take(src.len() as int) =~= owned(src)); }
#fn FromIterator@AvlMap::from_iter -> r
    requires lawful::<K>(), yields(iter).len() <= usize::MAX,
    ensures mwf(r), mels(r) == m_ext(Seq::<(K, V)>::empty(), yields(iter)),
@begin
    broadcast use lemma_sorted_empty;
    proof { node(None::<Arc<Node<K, V>>>); }
#fn From@AvlMap::from -> r
    requires lawful::<K>(),
    ensures mwf(r), mels(r) == m_ext(Seq::<(K, V)>::empty(), vs@),
@sub (\w+)\.into_iter\(\) => vec_arr(\1)
@begin
    broadcast use axiom_yields_vec;
#raw
// s is l, x, r in a row
#[verifier::opaque]
spec fn parts<E>(s: Seq<E>, l: Seq<E>, x: E, r: Seq<E>) -> bool { s == l + seq![x] + r }
broadcast proof fn lemma_parts_front<E>(s: Seq<E>, l: Seq<E>, x: E, r: Seq<E>, w: Seq<E>)
    requires #[trigger] parts(s, l, x, r),
    ensures
        s.len() == l.len() + 1 + r.len(),
        #[trigger] (s + w) == l + (seq![x] + (r + w)),
        l.len() == 0 ==> s + w == seq![x] + (r + w),
        r.len() == 0 ==> s + w == l + (seq![x] + w),
        l.len() == 0 && r.len() == 0 ==> s + w == seq![x] + w,
{
    reveal(parts);
    assert(s + w =~= l + (seq![x] + (r + w)));
    if l.len() == 0 { assert(s + w =~= seq![x] + (r + w)); }
    if r.len() == 0 { assert(s + w =~= l + (seq![x] + w)); }
    if l.len() == 0 && r.len() == 0 { assert(s + w =~= seq![x] + w); }
}
broadcast proof fn lemma_parts_back<E>(s: Seq<E>, l: Seq<E>, x: E, r: Seq<E>, w: Seq<E>)
    requires #[trigger] parts(s, l, x, r),
    ensures
        s.len() == l.len() + 1 + r.len(),
        #[trigger] (w + s) == w + l + seq![x] + r,
        l.len() == 0 ==> w + s == w + seq![x] + r,
        r.len() == 0 ==> w + s == w + l + seq![x],
        l.len() == 0 && r.len() == 0 ==> w + s == w + seq![x],
{
    reveal(parts);
    assert(w + s =~= w + l + seq![x] + r);
    if l.len() == 0 { assert(w + s =~= w + seq![x] + r); }
    if r.len() == 0 { assert(w + s =~= w + l + seq![x]); }
    if l.len() == 0 && r.len() == 0 { assert(w + s =~= w + seq![x]); }
}
#prop C04
#trait IterNode
@sub trait IterNode => trait IterNode: Sized
@begin
    type E;
    // a node that may be taken apart
    spec fn good(n: Self::Node) -> bool;
    // an item / the items under a node, as they are now
    spec fn view(x: Self::Item) -> Self::E;
    spec fn items(n: Self::Node) -> Seq<Self::E>;
    // the same when the borrows behind them have ended
    #[verifier::prophetic]
    spec fn fview(x: Self::Item) -> Self::E;
    #[verifier::prophetic]
    spec fn fitems(n: Self::Node) -> Seq<Self::E>;
    // ... and the node keeps its keys and its shape
    #[verifier::prophetic]
    spec fn same(n: Self::Node) -> bool;
@method destruct -> r
    requires Self::good(n),
    ensures
        r.0 is Some ==> Self::good(r.0->0),
        r.2 is Some ==> Self::good(r.2->0),
        parts(Self::items(n), (match r.0 { Some(m) => Self::items(m), None => Seq::empty() }), Self::view(r.1), (match r.2 { Some(m) => Self::items(m), None => Seq::empty() })),
        (match r.0 { Some(m) => Self::same(m), None => true }) && (match r.2 { Some(m) => Self::same(m), None => true }) ==> Self::same(n)
            && parts(Self::fitems(n), (match r.0 { Some(m) => Self::fitems(m), None => Seq::empty() }), Self::fview(r.1), (match r.2 { Some(m) => Self::fitems(m), None => Seq::empty() })),
#item enum IterAction
#item struct InnerIter
#raw
spec fn act<I: IterNode>(a: IterAction<I>) -> Seq<I::E> {
    match a { IterAction::Descend(n) => I::items(n), IterAction::Return(x) => seq![I::view(x)] }
}
#[verifier::prophetic]
spec fn fact<I: IterNode>(a: IterAction<I>) -> Seq<I::E> {
    match a { IterAction::Descend(n) => I::fitems(n), IterAction::Return(x) => seq![I::fview(x)] }
}
#[verifier::prophetic]
spec fn sact<I: IterNode>(a: IterAction<I>) -> bool {
    match a { IterAction::Descend(n) => I::same(n), IterAction::Return(x) => true }
}
spec fn gact<I: IterNode>(a: IterAction<I>) -> bool {
    match a { IterAction::Descend(n) => I::good(n), IterAction::Return(x) => true }
}
spec fn wt<I: IterNode>(a: IterAction<I>) -> nat {
    match a { IterAction::Descend(n) => 2 * I::items(n).len(), IterAction::Return(x) => 1 }
}
// what is still to be yielded, front to back
spec fn flat<I: IterNode>(w: Seq<IterAction<I>>) -> Seq<I::E>
    decreases w.len()
{
    if w.len() == 0 { Seq::empty() } else { flat(w.drop_last()) + act(w.last()) }
}
#[verifier::prophetic]
spec fn fflat<I: IterNode>(w: Seq<IterAction<I>>) -> Seq<I::E>
    decreases w.len()
{
    if w.len() == 0 { Seq::empty() } else { fflat(w.drop_last()) + fact(w.last()) }
}
#[verifier::prophetic]
spec fn same<I: IterNode>(w: Seq<IterAction<I>>) -> bool
    decreases w.len()
{
    if w.len() == 0 { true } else { same(w.drop_last()) && sact(w.last()) }
}
spec fn good<I: IterNode>(w: Seq<IterAction<I>>) -> bool
    decreases w.len()
{
    if w.len() == 0 { true } else { good(w.drop_last()) && gact(w.last()) }
}
spec fn weight<I: IterNode>(w: Seq<IterAction<I>>) -> nat
    decreases w.len()
{
    if w.len() == 0 { 0 } else { weight(w.drop_last()) + wt(w.last()) }
}
// all of the above on one step at either end
#[verifier::prophetic]
spec fn steps_to<I: IterNode>(a: IterAction<I>, w: Seq<IterAction<I>>, s: Seq<IterAction<I>>, front: bool) -> bool {
    &&& weight(s) == weight(w) + wt(a)
    &&& good(s) == (good(w) && gact(a))
    &&& same(s) == (same(w) && sact(a))
    &&& flat(s) == (if front { act(a) + flat(w) } else { flat(w) + act(a) })
    &&& fflat(s) == (if front { fact(a) + fflat(w) } else { fflat(w) + fact(a) })
}
broadcast proof fn lemma_push<I: IterNode>(w: Seq<IterAction<I>>, a: IterAction<I>)
    ensures
        #![trigger w.push(a)]
        weight(w.push(a)) == weight(w) + wt(a),
        good(w.push(a)) == (good(w) && gact(a)),
        same(w.push(a)) == (same(w) && sact(a)),
        flat(w.push(a)) == flat(w) + act(a),
        fflat(w.push(a)) == fflat(w) + fact(a),
{
    assert(w.push(a).drop_last() =~= w);
}
broadcast proof fn lemma_front<I: IterNode>(w: Seq<IterAction<I>>, a: IterAction<I>)
    ensures
        #![trigger seq![a] + w]
        weight(seq![a] + w) == weight(w) + wt(a),
        good(seq![a] + w) == (good(w) && gact(a)),
        same(seq![a] + w) == (same(w) && sact(a)),
        flat(seq![a] + w) == act(a) + flat(w),
        fflat(seq![a] + w) == fact(a) + fflat(w),
    decreases w.len()
{
    let s = seq![a] + w;
    if w.len() == 0 {
        assert(s =~= Seq::empty().push(a));
        lemma_push(Seq::empty(), a);
        assert(flat(s) =~= act(a) + flat(w));
        assert(fflat(s) =~= fact(a) + fflat(w));
    } else {
        lemma_front(w.drop_last(), a);
        assert(s.drop_last() =~= seq![a] + w.drop_last());
        assert(flat(s) =~= act(a) + flat(w));
        assert(fflat(s) =~= fact(a) + fflat(w));
    }
}
proof fn lemma_ends<I: IterNode>(w: Seq<IterAction<I>>)
    ensures
        w.len() > 0 ==> steps_to(w[0], w.skip(1), w, true),
        w.len() > 0 ==> steps_to(w.last(), w.drop_last(), w, false),
        w.len() == 0 ==> flat(w) == Seq::<I::E>::empty() && fflat(w) == Seq::<I::E>::empty() && same(w) && good(w) && weight(w) == 0,
{
    if w.len() > 0 {
        assert(w =~= seq![w[0]] + w.skip(1));
        lemma_front(w.skip(1), w[0]);
        assert(w =~= w.drop_last().push(w.last()));
        lemma_push(w.drop_last(), w.last());
    }
}
broadcast proof fn lemma_assoc<E>(a: Seq<E>, x: E, b: Seq<E>)
    ensures
        #![trigger (seq![x] + a) + b]
        #![trigger a + (b + seq![x])]
        (seq![x] + a) + b == seq![x] + (a + b),
        a + (b + seq![x]) == (a + b) + seq![x],
{
    assert((seq![x] + a) + b =~= seq![x] + (a + b));
    assert(a + (b + seq![x]) =~= (a + b) + seq![x]);
}
// what `next` and `next_back` do to the work list
#[verifier::prophetic]
spec fn nexts<I: IterNode>(o: InnerIter<I>, n: InnerIter<I>, r: Option<I::Item>, front: bool) -> bool {
    match r {
        None => flat(o.work@).len() == 0 && n.work@.len() == 0 && o.work@.len() == 0 && n.len == o.len,
        Some(x) => {
            &&& flat(o.work@) == (if front { seq![I::view(x)] + flat(n.work@) } else { flat(n.work@) + seq![I::view(x)] })
            &&& n.len == o.len - 1
            &&& good(n.work@)
            &&& same(n.work@) ==> same(o.work@)
                && fflat(o.work@) == (if front { seq![I::fview(x)] + fflat(n.work@) } else { fflat(n.work@) + seq![I::fview(x)] })
        }
    }
}
// an iterator that may be stepped
spec fn ready<I: IterNode>(i: InnerIter<I>) -> bool { good(i.work@) && flat(i.work@).len() <= i.len }
#fn Iterator@InnerIter::next -> r
    requires ready(*old(self)),
    ensures nexts(*old(self), *final(self), r, true),
    decreases weight(old(self).work@)
@begin
    broadcast use {lemma_front, lemma_parts_front};
    let ghost w0 = self.work@;
    proof { lemma_ends(w0); }
#fn DoubleEndedIterator@InnerIter::next_back -> r
    requires ready(*old(self)),
    ensures nexts(*old(self), *final(self), r, false),
    decreases weight(old(self).work@)
@begin
    broadcast use {lemma_push, lemma_parts_back};
    let ghost w0 = self.work@;
    proof { lemma_ends(w0); }
#fn Iterator@InnerIter::size_hint -> r
    ensures r.0 == self.len, r.1 == Some(self.len),
#fn ExactSizeIterator@InnerIter::len -> r
    ensures r == self.len,
#include keys.inc
#raw
spec fn nels<K, V>(n: Node<K, V>) -> Seq<(K, V)> { cat(els(n.left), (n.key, n.val), els(n.right)) }
// b has the keys and the shape of a
spec fn alike<K, V>(a: Node<K, V>, b: Node<K, V>) -> bool {
    &&& a.left_ht == b.left_ht && a.right_ht == b.right_ht
    &&& ht(a.left) == ht(b.left) && ht(a.right) == ht(b.right)
    &&& shape(a.left) ==> shape(b.left)
    &&& shape(a.right) ==> shape(b.right)
    &&& keys_of(nels(a)) == keys_of(nels(b))
}
proof fn lemma_alike<K, V>(a: Node<K, V>, b: Node<K, V>)
    ensures
        a.key == b.key && a.left_ht == b.left_ht && a.right_ht == b.right_ht
            && (match (a.left, b.left) { (Some(x), Some(y)) => alike(*x, *y), (None, None) => true, _ => false })
            && (match (a.right, b.right) { (Some(x), Some(y)) => alike(*x, *y), (None, None) => true, _ => false })
            ==> alike(a, b),
{
    node(a.left); node(a.right); node(b.left); node(b.right);
    lemma_keys_cat(els(a.left), (a.key, a.val), els(a.right));
    lemma_keys_cat(els(b.left), (b.key, b.val), els(b.right));
}
spec fn anode<K, V>(a: Arc<Node<K, V>>) -> Node<K, V> { *a }
#item struct NormIterNode
#item struct IterMutNode
#fn IterNode@NormIterNode::destruct +keeptrait
@impl
    type E = (K, V);
    spec fn good(n: Self::Node) -> bool { true }
    spec fn view(x: Self::Item) -> Self::E { (*x.0, *x.1) }
    spec fn items(n: Self::Node) -> Seq<Self::E> { nels(**n) }
    #[verifier::prophetic]
    spec fn fview(x: Self::Item) -> Self::E { (*x.0, *x.1) }
    #[verifier::prophetic]
    spec fn fitems(n: Self::Node) -> Seq<Self::E> { nels(**n) }
    #[verifier::prophetic]
    spec fn same(n: Self::Node) -> bool { true }
@begin
    let ghost a = anode(*n);
    proof { reveal(parts); node(a.left); node(a.right); }
#fn IterNode@IterMutNode::destruct +keeptrait
@sub ?\.map\(Arc::make_mut\) => .map(|x: &mut Arc<Node<K, V>>| -> (r: &mut Node<K, V>) ensures *r == **old(x), *final(r) == **final(x) { arc_make_mut(x) })
@impl
    type E = (K, V);
    spec fn good(n: Self::Node) -> bool { true }
    spec fn view(x: Self::Item) -> Self::E { (*x.0, *x.1) }
    spec fn items(n: Self::Node) -> Seq<Self::E> { nels(*n) }
    #[verifier::prophetic]
    spec fn fview(x: Self::Item) -> Self::E { (*x.0, *final(x.1)) }
    #[verifier::prophetic]
    spec fn fitems(n: Self::Node) -> Seq<Self::E> { nels(*final(n)) }
    #[verifier::prophetic]
    spec fn same(n: Self::Node) -> bool { alike(*n, *final(n)) }
@begin
    let ghost a = *n;
    let ghost b = *final(n);
    proof { reveal(parts); node(a.left); node(a.right); node(b.left); node(b.right); lemma_alike(a, b); }
#item struct Iter
#item struct IterMut
#item struct Range
#item struct RangeMut
#fn Iterator@Iter::next -> r
    requires ready(old(self).iter),
    ensures nexts(old(self).iter, final(self).iter, r, true),
#fn DoubleEndedIterator@Iter::next_back -> r
    requires ready(old(self).iter),
    ensures nexts(old(self).iter, final(self).iter, r, false),
#fn Iterator@Iter::size_hint -> r
    ensures r.0 == self.iter.len, r.1 == Some(self.iter.len),
#fn ExactSizeIterator@Iter::len -> r
    ensures r == self.iter.len,
#fn Iterator@IterMut::next -> r
    requires ready(old(self).iter),
    ensures nexts(old(self).iter, final(self).iter, r, true),
#fn DoubleEndedIterator@IterMut::next_back -> r
    requires ready(old(self).iter),
    ensures nexts(old(self).iter, final(self).iter, r, false),
#fn Iterator@IterMut::size_hint -> r
    ensures r.0 == self.iter.len, r.1 == Some(self.iter.len),
#fn ExactSizeIterator@IterMut::len -> r
    ensures r == self.iter.len,
#fn Iterator@Range::next -> r
    requires ready(old(self).iter),
    ensures nexts(old(self).iter, final(self).iter, r, true),
#fn DoubleEndedIterator@Range::next_back -> r
    requires ready(old(self).iter),
    ensures nexts(old(self).iter, final(self).iter, r, false),
#fn Iterator@Range::size_hint -> r
    requires ready(self.iter),
    ensures r.0 <= flat(self.iter.work@).len(), r.1 is Some ==> flat(self.iter.work@).len() <= r.1->0,
#fn Iterator@RangeMut::next -> r
    requires ready(old(self).iter),
    ensures nexts(old(self).iter, final(self).iter, r, true),
#fn DoubleEndedIterator@RangeMut::next_back -> r
    requires ready(old(self).iter),
    ensures nexts(old(self).iter, final(self).iter, r, false),
#fn Iterator@RangeMut::size_hint -> r
    requires ready(self.iter),
    ensures r.0 <= flat(self.iter.work@).len(), r.1 is Some ==> flat(self.iter.work@).len() <= r.1->0,
#raw
#trait IntoItem
@sub trait IntoItem<K, V> => trait IntoItem<K, V>: Sized
@begin
    spec fn of(k: K, v: V) -> Self::Item;
@method from_arc -> r
    ensures r == Self::of(*k, *v),
@method from_own -> r
    ensures r == Self::of(k, v),
#item struct IntoKey
#item struct IntoValue
#item struct IntoKeyValue
#fn IntoItem@IntoKey::from_arc +keeptrait +with=from_own
@impl
    spec fn of(k: K, v: V) -> K { k }
#fn IntoItem@IntoValue::from_arc +keeptrait +with=from_own
@impl
    spec fn of(k: K, v: V) -> V { v }
#fn IntoItem@IntoKeyValue::from_arc +keeptrait +with=from_own
@impl
    spec fn of(k: K, v: V) -> (K, V) { (k, v) }
#item enum IntoIterNode
#raw
spec fn inode<K, V, II>(n: IntoIterNode<K, V, II>) -> Node<K, V> {
    match n { IntoIterNode::Arcked(a) => *a, IntoIterNode::Owned(x) => x, IntoIterNode::Marker(_) => arbitrary() }
}
spec fn each<K, V, II: IntoItem<K, V>>(s: Seq<(K, V)>) -> Seq<II::Item> { s.map_values(|e: (K, V)| II::of(e.0, e.1)) }
proof fn lemma_each_cat<K, V, II: IntoItem<K, V>>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>)
    ensures parts(each::<K, V, II>(cat(l, e, r)), each::<K, V, II>(l), II::of(e.0, e.1), each::<K, V, II>(r)),
{
    reveal(parts);
    assert(each::<K, V, II>(cat(l, e, r)) =~= each::<K, V, II>(l) + seq![II::of(e.0, e.1)] + each::<K, V, II>(r));
}
#fn opt_to_iter_node -> r
    ensures
        r is Some <==> n is Some,
        n is Some ==> !(r->0 is Marker) && inode(r->0) == *(n->0),
#fn IterNode@IntoIterNode::destruct +keeptrait
@sub ?\.map\(\|(\w+)\| Arcked\(\1\)\) => .map(|x: Arc<Node<K, V>>| -> (r: IntoIterNode<K, V, II>) ensures r == IntoIterNode::<K, V, II>::Arcked(x) { Arcked(x) })
@impl
    type E = II::Item;
    spec fn good(n: Self::Node) -> bool { !(n is Marker) }
    spec fn view(x: Self::Item) -> Self::E { x }
    spec fn items(n: Self::Node) -> Seq<Self::E> { each::<K, V, II>(nels(inode(n))) }
    #[verifier::prophetic]
    spec fn fview(x: Self::Item) -> Self::E { x }
    #[verifier::prophetic]
    spec fn fitems(n: Self::Node) -> Seq<Self::E> { each::<K, V, II>(nels(inode(n))) }
    #[verifier::prophetic]
    spec fn same(n: Self::Node) -> bool { true }
@begin
    let ghost a = inode(n);
    proof {
        node(a.left); node(a.right);
        lemma_each_cat::<K, V, II>(els(a.left), (a.key, a.val), els(a.right));
        assert(each::<K, V, II>(Seq::empty()) =~= Seq::empty());
    }
#item struct IntoIter
#fn Iterator@IntoIter::next -> r
    requires ready(old(self).iter),
    ensures nexts(old(self).iter, final(self).iter, r, true),
#fn DoubleEndedIterator@IntoIter::next_back -> r
    requires ready(old(self).iter),
    ensures nexts(old(self).iter, final(self).iter, r, false),
#fn Iterator@IntoIter::size_hint -> r
    ensures r.0 == self.iter.len, r.1 == Some(self.iter.len),
#fn ExactSizeIterator@IntoIter::len -> r
    ensures r == self.iter.len,
#raw
// an iterator over exactly these items, of which `len` is the number
spec fn over<I: IterNode>(i: InnerIter<I>, s: Seq<I::E>) -> bool {
    good(i.work@) && flat(i.work@) == s && i.len == s.len()
}
proof fn lemma_iter_of<I: IterNode>(w: Seq<IterAction<I>>)
    ensures
        w.len() == 0 ==> good(w) && same(w) && flat(w) == Seq::<I::E>::empty() && fflat(w) == Seq::<I::E>::empty(),
        w.len() == 1 ==> good(w) == gact(w[0]) && same(w) == sact(w[0]) && flat(w) == act(w[0]) && fflat(w) == fact(w[0]),
{
    if w.len() == 1 {
        lemma_ends(w);
        lemma_ends(w.drop_last());
        assert(flat(w) =~= act(w[0]));
        assert(fflat(w) =~= fact(w[0]));
    } else if w.len() == 0 {
        lemma_ends(w);
    }
}
broadcast proof fn lemma_first_front<I: IterNode>(w: Seq<IterAction<I>>, a: IterAction<I>)
    ensures
        w.len() == 0 ==> good(#[trigger] (seq![a] + w)) == gact(a) && same(seq![a] + w) == sact(a)
            && flat(seq![a] + w) == act(a) && fflat(seq![a] + w) == fact(a),
{
    lemma_iter_of(seq![a] + w);
}
broadcast proof fn lemma_first_push<I: IterNode>(w: Seq<IterAction<I>>, a: IterAction<I>)
    ensures
        w.len() == 0 ==> good(#[trigger] w.push(a)) == gact(a) && same(w.push(a)) == sact(a)
            && flat(w.push(a)) == act(a) && fflat(w.push(a)) == fact(a),
{
    lemma_iter_of(w.push(a));
}
proof fn lemma_each<K: Clone, V: Clone>(s: Seq<(K, V)>)
    ensures
        s.len() == keys_of(s).len() == vals_of(s).len(),
        each::<K, V, IntoKey>(s) == keys_of(s),
        each::<K, V, IntoValue>(s) == vals_of(s),
        each::<K, V, IntoKeyValue>(s) == s,
        s.len() == 0 ==> keys_of(s) == Seq::<K>::empty() && vals_of(s) == Seq::<V>::empty(),
{
    if s.len() == 0 {
        assert(keys_of(s) =~= Seq::<K>::empty());
        assert(vals_of(s) =~= Seq::<V>::empty());
    }
    assert(each::<K, V, IntoKey>(s) =~= keys_of(s));
    assert(each::<K, V, IntoValue>(s) =~= vals_of(s));
    assert(each::<K, V, IntoKeyValue>(s) =~= s);
}
#fn AvlMap::iter -> r +where=K:Ord
    requires mwf(*self),
    ensures over(r.iter, mels(*self)),
@begin
    broadcast use {lemma_first_front, lemma_first_push};
    let ghost m = *self;
    proof { node(m.root); lemma_mwf(m); lemma_iter_of(Seq::<IterAction<NormIterNode<K, V>>>::empty()); }
#fn IntoIterator@AvlMap::into_iter -> r +where=K:Ord
    requires mels(self).len() <= self.len,
    ensures ready(r.iter), flat(r.iter.work@) == mels(self), r.iter.len == self.len, mwf(self) ==> over(r.iter, mels(self)),
@begin
    broadcast use {lemma_first_front, lemma_first_push};
    proof { node(self.root); lemma_iter_of(Seq::<IterAction<IntoIterNode<K, V, IntoKeyValue>>>::empty()); lemma_each(mels(self)); }
#fn AvlMap::into_keys -> r +where=K:Ord
@ret InnerIter<IntoIterNode<K, V, IntoKey>>
    requires mwf(self),
    ensures over(r, keys_of(mels(self))),
@begin
    broadcast use {lemma_first_front, lemma_first_push};
    proof { node(self.root); lemma_mwf(self); lemma_iter_of(Seq::<IterAction<IntoIterNode<K, V, IntoKey>>>::empty()); lemma_each(mels(self)); }
#fn AvlMap::into_values -> r +where=K:Ord
@ret InnerIter<IntoIterNode<K, V, IntoValue>>
    requires mwf(self),
    ensures over(r, vals_of(mels(self))),
@begin
    broadcast use {lemma_first_front, lemma_first_push};
    proof { node(self.root); lemma_mwf(self); lemma_iter_of(Seq::<IterAction<IntoIterNode<K, V, IntoValue>>>::empty()); lemma_each(mels(self)); }
#raw
// an iterator of references into `o`, which will be `n` when it has ended
#[verifier::prophetic]
spec fn over_mut<'a, K: Ord + Clone, V: Clone>(i: InnerIter<IterMutNode<'a, K, V>>, o: AvlMap<K, V>, n: AvlMap<K, V>) -> bool {
    &&& over(i, mels(o))
    &&& same(i.work@) ==> mwf(n) && n.len == o.len && keys_of(mels(n)) == keys_of(mels(o)) && mels(n) == fflat(i.work@)
}
spec fn oalike<K, V>(a: OptNode<K, V>, b: OptNode<K, V>) -> bool {
    match (a, b) { (Some(x), Some(y)) => alike(*x, *y), (None, None) => true, _ => false }
}
proof fn lemma_alike_wf<K: Ord, V>(a: OptNode<K, V>, b: OptNode<K, V>)
    requires wf(a),
    ensures
        oalike(a, b) ==> wf(b) && keys_of(els(b)) == keys_of(els(a)) && els(b).len() == els(a).len(),
{
    node(a); node(b);
    if oalike(a, b) && a is Some {
        lemma_same_keys_sorted(els(a), els(b));
    }
}
#fn AvlMap::iter_mut -> r +where=K:Ord
    requires mwf(*old(self)),
    ensures over_mut(r.iter, *old(self), *final(self)),
@begin
    broadcast use {lemma_first_front, lemma_first_push};
    let ghost m = *self;
    let ghost fin = *final(self);
    proof { node(m.root); node(fin.root); lemma_mwf(m); lemma_iter_of(Seq::<IterAction<IterMutNode<K, V>>>::empty()); }
    proof { lemma_alike_wf(m.root, fin.root); }
#fn AvlMap::keys -> r +where=K:Ord
@ret 'q VMapped<Iter<'q, K, V>, impl Fn((&'q K, &'q V)) -> &'q K>
    requires mwf(*self),
    ensures over(r.i.iter, mels(*self)), forall|p: (&'q K, &'q V), o: &'q K| r.f.ensures((p,), o) ==> o == p.0,
@sub \.map\( => .vmap_it(
@closure 0 (p: (&'q K, &'q V)) -> (o: &'q K)
    ensures o == p.0,
#fn AvlMap::values -> r +where=K:Ord
@ret 'q VMapped<Iter<'q, K, V>, impl Fn((&'q K, &'q V)) -> &'q V>
    requires mwf(*self),
    ensures over(r.i.iter, mels(*self)), forall|p: (&'q K, &'q V), o: &'q V| r.f.ensures((p,), o) ==> o == p.1,
@sub \.map\( => .vmap_it(
@closure 0 (p: (&'q K, &'q V)) -> (o: &'q V)
    ensures o == p.1,
#fn AvlMap::values_mut -> r +where=K:Ord
@ret 'q VMapped<IterMut<'q, K, V>, impl Fn((&'q K, &'q mut V)) -> &'q mut V>
    requires mwf(*old(self)),
    ensures
        over_mut(r.i.iter, *old(self), *final(self)),
        forall|p: (&'q K, &'q mut V), o: &'q mut V| r.f.ensures((p,), o) ==> *o == *p.1 && *final(o) == *final(p.1),
@sub \.map\( => .vmap_it(
@closure 0 (p: (&'q K, &'q mut V)) -> (o: &'q mut V)
    ensures *o == *old(p.1), *final(o) == *final(p.1),
#raw
pub broadcast proof fn lemma_add_empty<E>(a: Seq<E>, b: Seq<E>)
    ensures
        #![trigger a + b]
        a.len() == 0 ==> a + b == b,
        b.len() == 0 ==> a + b == a,
{
    if a.len() == 0 { assert(a + b =~= b); }
    if b.len() == 0 { assert(a + b =~= a); }
}
// every subtree on the list is sorted
spec fn asort<K: Ord, V, I: IterNode<E = (K, V)>>(a: IterAction<I>) -> bool {
    match a { IterAction::Descend(n) => sorted(I::items(n)), IterAction::Return(x) => true }
}
spec fn sorts<K: Ord, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>) -> bool
    decreases w.len()
{
    if w.len() == 0 { true } else { sorts(w.drop_last()) && asort(w.last()) }
}
broadcast proof fn lemma_sorts_push<K: Ord, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, a: IterAction<I>)
    ensures #[trigger] sorts(w.push(a)) == (sorts(w) && asort(a)),
{
    assert(w.push(a).drop_last() =~= w);
}
broadcast proof fn lemma_sorts_front<K: Ord, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, a: IterAction<I>)
    ensures #[trigger] sorts(seq![a] + w) == (sorts(w) && asort(a)),
    decreases w.len()
{
    let s = seq![a] + w;
    if w.len() == 0 {
        assert(s =~= Seq::empty().push(a));
        lemma_sorts_push(Seq::<IterAction<I>>::empty(), a);
    } else {
        lemma_sorts_front(w.drop_last(), a);
        assert(s.drop_last() =~= seq![a] + w.drop_last());
    }
}
// everything past the front is above the lower bound / before the back is below the upper one
spec fn lows<K, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, lo: Pred<K>) -> bool {
    w.len() > 0 ==> all_in(flat(w.skip(1)), lo)
}
spec fn highs<K, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, hi: Pred<K>) -> bool {
    w.len() > 0 ==> all_in(flat(w.drop_last()), hi)
}
broadcast proof fn lemma_lows_front<K, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, a: IterAction<I>, lo: Pred<K>)
    ensures #[trigger] lows(seq![a] + w, lo) == all_in(flat(w), lo),
{
    assert((seq![a] + w).skip(1) =~= w);
}
broadcast proof fn lemma_highs_push<K, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, a: IterAction<I>, hi: Pred<K>)
    ensures #[trigger] highs(w.push(a), hi) == all_in(flat(w), hi),
{
    assert(w.push(a).drop_last() =~= w);
}
broadcast proof fn lemma_highs_front<K, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, a: IterAction<I>, hi: Pred<K>)
    ensures #[trigger] highs(seq![a] + w, hi) == (w.len() == 0 || all_in(act(a), hi) && highs(w, hi)),
{
    let s = seq![a] + w;
    if w.len() == 0 {
        assert(s.drop_last() =~= Seq::<IterAction<I>>::empty());
        lemma_ends(s.drop_last());
        lemma_all_in_empty(flat(s.drop_last()), hi);
    } else {
        assert(s.drop_last() =~= seq![a] + w.drop_last());
        lemma_front(w.drop_last(), a);
        lemma_all_in_plus(act(a), flat(w.drop_last()), hi);
    }
}
broadcast proof fn lemma_flat_in_front<K, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, a: IterAction<I>, p: Pred<K>)
    ensures
        #![trigger all_in(flat(seq![a] + w), p)]
        #![trigger sel(flat(seq![a] + w), p)]
        all_in(flat(seq![a] + w), p) == (all_in(act(a), p) && all_in(flat(w), p)),
        sel(flat(seq![a] + w), p) == sel(act(a), p) + sel(flat(w), p),
{
    lemma_front(w, a);
    lemma_all_in_plus(act(a), flat(w), p);
    lemma_sel_plus(act(a), flat(w), p);
}
broadcast proof fn lemma_flat_in_push<K, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, a: IterAction<I>, p: Pred<K>)
    ensures
        #![trigger all_in(flat(w.push(a)), p)]
        #![trigger sel(flat(w.push(a)), p)]
        all_in(flat(w.push(a)), p) == (all_in(act(a), p) && all_in(flat(w), p)),
        sel(flat(w.push(a)), p) == sel(flat(w), p) + sel(act(a), p),
{
    lemma_push(w, a);
    lemma_all_in_plus(flat(w), act(a), p);
    lemma_sel_plus(flat(w), act(a), p);
}
broadcast proof fn lemma_all_one<K, V>(e: (K, V), p: Pred<K>)
    ensures
        #![trigger all_in(seq![e], p)]
        #![trigger sel(seq![e], p)]
        all_in(seq![e], p) == p(e.0),
        sel(seq![e], p) == (if p(e.0) { seq![e] } else { Seq::empty() }),
{
    reveal(all_in);
    lemma_sel_one(e, p);
    if all_in(seq![e], p) { assert(p(seq![e][0].0)); }
}
broadcast group group_front { lemma_front, lemma_sorts_front, lemma_lows_front, lemma_highs_front, lemma_flat_in_front, lemma_all_one, lemma_add_empty, lemma_all_in_empty }
broadcast group group_push { lemma_push, lemma_sorts_push, lemma_highs_push, lemma_flat_in_push, lemma_all_one, lemma_add_empty, lemma_all_in_empty }

// all that one step of the pruning loops needs to know about a node
proof fn lemma_prune<K: Ord, V, Q: Ord>(l: Seq<(K, V)>, e: (K, V), r: Seq<(K, V)>, lb: Bound<Q>, ub: Bound<Q>)
    requires sorted(cat(l, e, r)), lawful_q::<K, Q>(),
    ensures
        ({
            let (lo, hi) = (in_lo::<K, Q>(lb), in_hi::<K, Q>(ub));
            let p = both(lo, hi);
            &&& sorted(l) && sorted(r)
            &&& p(e.0) == (lo(e.0) && hi(e.0))
            &&& lo(e.0) ==> all_in(r, lo)
            &&& hi(e.0) ==> all_in(l, hi)
            &&& past_it::<K, Q>(lb, e.0)
                ==> sel(l, p).len() == 0
            &&& before_it::<K, Q>(ub, e.0)
                ==> sel(r, p).len() == 0
            &&& !past_it::<K, Q>(lb, e.0) ==> lo(e.0)
            &&& !before_it::<K, Q>(ub, e.0) ==> hi(e.0)
            &&& sel(cat(l, e, r), p) == sel(l, p) + sel(seq![e], p) + sel(r, p)
            &&& all_in(cat(l, e, r), lo) == (all_in(l, lo) && lo(e.0) && all_in(r, lo))
            &&& all_in(cat(l, e, r), hi) == (all_in(l, hi) && hi(e.0) && all_in(r, hi))
            &&& cat(l, e, r).len() == l.len() + 1 + r.len()
        }),
{
    broadcast use {lemma_sel_none, lemma_all_one};
    let (lo, hi) = (in_lo::<K, Q>(lb), in_hi::<K, Q>(ub));
    let p = both(lo, hi);
    lemma_bounds_mono::<K, Q>(lb);
    lemma_bounds_mono::<K, Q>(ub);
    lemma_cut_range(l, e, r, lo, hi);
    lemma_cut_bound::<K, V, Q>(l, e, r, lb);
    lemma_cut_bound::<K, V, Q>(l, e, r, ub);
    lemma_none_both(l, lo, hi);
    lemma_none_both(r, lo, hi);
    lemma_sel_cat(l, e, r, p);
    lemma_sel_cat(l, e, r, lo);
    lemma_sel_cat(l, e, r, hi);
    if sel(l, p).len() != 0 { assert(!none_in(l, p)); }
    if sel(r, p).len() != 0 { assert(!none_in(r, p)); }
}
proof fn lemma_assoc4<E>(a: Seq<E>, b: Seq<E>, c: Seq<E>, d: Seq<E>)
    ensures
        (a + b + c) + d == a + (b + (c + d)),
        d + (a + b + c) == ((d + a) + b) + c,
{
    assert((a + b + c) + d =~= a + (b + (c + d)));
    assert(d + (a + b + c) =~= ((d + a) + b) + c);
}
pub trait VDeque<E> {
    spec fn dq(&self) -> Seq<E>;
    fn vfront(&self) -> (r: Option<&E>)
        ensures match r { Some(x) => self.dq().len() > 0 && *x == self.dq()[0], None => self.dq().len() == 0 };
    fn vback(&self) -> (r: Option<&E>)
        ensures match r { Some(x) => self.dq().len() > 0 && *x == self.dq().last(), None => self.dq().len() == 0 };
}
impl<E> VDeque<E> for VecDeque<E> {
    open spec fn dq(&self) -> Seq<E> { self@ }
    #[verifier::external_body]
    fn vfront(&self) -> (r: Option<&E>) { self.front() }
    #[verifier::external_body]
    fn vback(&self) -> (r: Option<&E>) { self.back() }
}
// everything is within the bound once the end is
proof fn lemma_ends_in<K, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, p: Pred<K>)
    ensures
        all_in(flat(w), p) == (lows(w, p) && (w.len() > 0 ==> all_in(act(w[0]), p))),
        all_in(flat(w), p) == (highs(w, p) && (w.len() > 0 ==> all_in(act(w.last()), p))),
{
    if w.len() == 0 {
        lemma_ends(w);
        lemma_all_in_empty(flat(w), p);
    } else {
        assert(w =~= seq![w[0]] + w.skip(1));
        assert(w =~= w.drop_last().push(w.last()));
        lemma_flat_in_front(w.skip(1), w[0], p);
        lemma_flat_in_push(w.drop_last(), w.last(), p);
    }
}
proof fn lemma_range_step<K: Ord, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>)
    requires w.len() > 0, good(w), sorts(w),
    ensures
        good(w.skip(1)), sorts(w.skip(1)), gact(w[0]), asort(w[0]),
        good(w.drop_last()), sorts(w.drop_last()), gact(w.last()), asort(w.last()),
{
    lemma_ends(w);
    assert(w =~= seq![w[0]] + w.skip(1));
    lemma_sorts_front(w.skip(1), w[0]);
    lemma_front(w.skip(1), w[0]);
    lemma_push(w.drop_last(), w.last());
    assert(w =~= w.drop_last().push(w.last()));
}
#fn AvlMap::range -> r +where=K:Ord +rlimit=60
    requires mwf(*self), lawful_q::<K, Q>(),
    ensures
        ready(r.iter),
        flat(r.iter.work@) == sel(mels(*self), both(in_lo::<K, Q>(rlo::<Q, R>(range)), in_hi::<K, Q>(rhi::<Q, R>(range)))),
@sub \brange\.contains\( => range.vcontains(
@sub \bk <= ([\w.()]+) => vle(k, \1)
@sub \bk >= ([\w.()]+) => vge(k, \1)
@begin
    let ghost lob = rlo::<Q, R>(range);
    let ghost hib = rhi::<Q, R>(range);
    let ghost lo = in_lo::<K, Q>(lob);
    let ghost hi = in_hi::<K, Q>(hib);
    let ghost p = both(lo, hi);
    let ghost m = *self;
    broadcast use group_push;
    proof {
        node(m.root); lemma_mwf(m);
        lemma_ends(Seq::<IterAction<NormIterNode<K, V>>>::empty());
        reveal_with_fuel(sorts, 2);
    }
@loop 0
    invariant
        lawful_q::<K, Q>(), bval(lb) == lob, bval(ub) == hib, m == *self,
        lob == rlo::<Q, R>(range), hib == rhi::<Q, R>(range), p == both(lo, hi),
        lo == in_lo::<K, Q>(lob), hi == in_hi::<K, Q>(hib),
        good(work@), sorts(work@), flat(work@).len() <= m.len,
        sel(flat(work@), p) == sel(mels(m), p),
        lows(work@, lo), highs(work@, hi),
        work@.len() > 0 && work@[0] is Return ==> all_in(act(work@[0]), lo),
        work@.len() > 0 && work@.last() is Return ==> all_in(act(work@.last()), hi),
    ensures work@.len() > 0 ==> work@[0] is Return,
    decreases weight(work@)
@body 0
    broadcast use group_front;
    let ghost w0 = work@;
    let ghost a = anode(*(w0[0]->Descend_0));
    proof {
        lemma_ends(w0); lemma_range_step::<K, V, NormIterNode<K, V>>(w0);
        assert(w0 =~= seq![w0[0]] + w0.skip(1));
        node(a.left); node(a.right);
        lemma_prune::<K, V, Q>(els(a.left), (a.key, a.val), els(a.right), lob, hib);
        lemma_assoc4(sel(els(a.left), p), sel(seq![(a.key, a.val)], p), sel(els(a.right), p), sel(flat(w0.skip(1)), p));
        lemma_ends_in(w0.skip(1), lo);
        lemma_flat_in_front(w0.skip(1), w0[0], p);
        lemma_all_in_empty(Seq::<(K, V)>::empty(), p);
    }
@loop 1
    invariant
        lawful_q::<K, Q>(), bval(lb) == lob, bval(ub) == hib, m == *self,
        lob == rlo::<Q, R>(range), hib == rhi::<Q, R>(range), p == both(lo, hi),
        lo == in_lo::<K, Q>(lob), hi == in_hi::<K, Q>(hib),
        good(work@), sorts(work@), flat(work@).len() <= m.len,
        sel(flat(work@), p) == sel(mels(m), p),
        all_in(flat(work@), lo), highs(work@, hi),
        work@.len() > 0 && work@.last() is Return ==> all_in(act(work@.last()), hi),
    ensures work@.len() > 0 ==> work@.last() is Return,
    decreases weight(work@)
@body 1
    broadcast use group_push;
    let ghost w0 = work@;
    let ghost a = anode(*(w0.last()->Descend_0));
    proof {
        lemma_ends(w0); lemma_range_step::<K, V, NormIterNode<K, V>>(w0);
        assert(w0 =~= w0.drop_last().push(w0.last()));
        node(a.left); node(a.right);
        lemma_prune::<K, V, Q>(els(a.left), (a.key, a.val), els(a.right), lob, hib);
        lemma_assoc4(sel(els(a.left), p), sel(seq![(a.key, a.val)], p), sel(els(a.right), p), sel(flat(w0.drop_last()), p));
        lemma_ends_in(w0.drop_last(), hi);
        lemma_flat_in_push(w0.drop_last(), w0.last(), p);
        lemma_all_in_empty(Seq::<(K, V)>::empty(), p);
    }
@past 0
    proof { lemma_ends_in(work@, lo); }
@past 1
    proof {
        lemma_ends_in(work@, hi);
        lemma_none_both(flat(work@), lo, hi);
        lemma_sel_all(flat(work@), p);
        lemma_sel_len(mels(m), p);
    }
#raw
// nothing outside p has changed
#[verifier::prophetic]
spec fn oact<K, V, I: IterNode<E = (K, V)>>(a: IterAction<I>, p: Pred<K>) -> bool {
    sel(act(a), neg(p)) == sel(fact(a), neg(p))
}
#[verifier::prophetic]
spec fn outs<K, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, p: Pred<K>) -> bool
    decreases w.len()
{
    if w.len() == 0 { true } else { outs(w.drop_last(), p) && oact(w.last(), p) }
}
broadcast proof fn lemma_outs_push<K, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, a: IterAction<I>, p: Pred<K>)
    ensures #[trigger] outs(w.push(a), p) == (outs(w, p) && oact(a, p)),
{
    assert(w.push(a).drop_last() =~= w);
}
broadcast proof fn lemma_outs_front<K, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, a: IterAction<I>, p: Pred<K>)
    ensures #[trigger] outs(seq![a] + w, p) == (outs(w, p) && oact(a, p)),
    decreases w.len()
{
    let s = seq![a] + w;
    if w.len() == 0 {
        assert(s =~= Seq::empty().push(a));
        lemma_outs_push(Seq::<IterAction<I>>::empty(), a, p);
    } else {
        lemma_outs_front(w.drop_last(), a, p);
        assert(s.drop_last() =~= seq![a] + w.drop_last());
    }
}
broadcast proof fn lemma_ff_front<K, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, a: IterAction<I>, p: Pred<K>)
    ensures #[trigger] sel(fflat(seq![a] + w), p) == sel(fact(a), p) + sel(fflat(w), p),
{
    lemma_front(w, a);
    lemma_sel_plus(fact(a), fflat(w), p);
}
broadcast proof fn lemma_ff_push<K, V, I: IterNode<E = (K, V)>>(w: Seq<IterAction<I>>, a: IterAction<I>, p: Pred<K>)
    ensures #[trigger] sel(fflat(w.push(a)), p) == sel(fflat(w), p) + sel(fact(a), p),
{
    lemma_push(w, a);
    lemma_sel_plus(fflat(w), fact(a), p);
}
broadcast group group_mut_front { lemma_outs_front, lemma_ff_front, lemma_sel_one }
broadcast group group_mut_push { lemma_outs_push, lemma_ff_push, lemma_sel_one }
proof fn lemma_keys_in<K, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, p: Pred<K>)
    requires all_in(s, p),
    ensures
        keys_of(s) == keys_of(t) ==> all_in(t, p) && none_in(t, neg(p)),
{
    reveal(all_in);
    reveal(none_in);
    if keys_of(s) == keys_of(t) {
        assert(keys_of(s).len() == s.len() && keys_of(t).len() == t.len());
        assert forall|i: int| 0 <= i < t.len() implies p(#[trigger] t[i].0) by {
            assert(keys_of(s)[i] == s[i].0 && keys_of(t)[i] == t[i].0);
        }
    }
}
proof fn lemma_in_sel<K, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, p: Pred<K>)
    requires all_in(s, p),
    ensures
        keys_of(s) == keys_of(t) ==> all_in(t, p) && sel(t, p) == t && sel(s, neg(p)) == sel(t, neg(p)),
{
    broadcast use {lemma_sel_none, lemma_sel_all};
    lemma_keys_in(s, s, p);
    lemma_keys_in(s, t, p);
    if keys_of(s) == keys_of(t) {
        assert(none_in(t, neg(p)) && none_in(s, neg(p)));
    }
}
// a list all of whose entries are within p touches nothing else
proof fn lemma_mut_end<'a, K: Clone, V: Clone>(w: Seq<IterAction<IterMutNode<'a, K, V>>>, p: Pred<K>)
    requires all_in(flat(w), p),
    ensures
        same(w) ==> outs(w, p) && all_in(fflat(w), p) && sel(fflat(w), p) == fflat(w),
    decreases w.len()
{
    broadcast use lemma_sel_all;
    if w.len() == 0 {
        lemma_ends(w);
        lemma_all_in_empty(fflat(w), p);
    } else {
        let (u, a) = (w.drop_last(), w.last());
        assert(w =~= u.push(a));
        lemma_push(u, a);
        lemma_flat_in_push(u, a, p);
        lemma_mut_end(u, p);
        lemma_in_sel(act(a), fact(a), p);
        lemma_all_in_plus(fflat(u), fact(a), p);
        assert(sact(a) ==> keys_of(act(a)) == keys_of(fact(a))) by {
            match a {
                IterAction::Descend(n) => {}
                IterAction::Return(x) => {
                    assert(keys_of(act(a)) =~= seq![*x.0]);
                    assert(keys_of(fact(a)) =~= seq![*x.0]);
                }
            }
        }
        lemma_implied(same(w), all_in(fflat(w), p), fflat(w), p);
    }
}
proof fn lemma_implied<K, V>(c: bool, d: bool, s: Seq<(K, V)>, p: Pred<K>)
    requires c ==> d, d == all_in(s, p),
    ensures c ==> sel(s, p) == s,
{
    if all_in(s, p) { lemma_sel_all(s, p); }
}
#[verifier::prophetic]
spec fn mut_inv<'a, K: Clone, V: Clone>(w: Seq<IterAction<IterMutNode<'a, K, V>>>, m: AvlMap<K, V>, n: AvlMap<K, V>, p: Pred<K>) -> bool {
    &&& same(w) ==> oalike(m.root, n.root) && sel(mels(n), p) == sel(fflat(w), p)
    &&& same(w) && outs(w, p) ==> sel(mels(n), neg(p)) == sel(mels(m), neg(p))
}
#fn AvlMap::range_mut -> r +where=K:Ord +rlimit=120
@ret 'q RangeMut<'q, K, V>
    requires mwf(*old(self)), lawful_q::<K, T>(),
    ensures
        ready(r.iter),
        flat(r.iter.work@) == sel(mels(*old(self)), both(in_lo::<K, T>(rlo::<T, R>(range)), in_hi::<K, T>(rhi::<T, R>(range)))),
        same(r.iter.work@) ==> mwf(*final(self)) && final(self).len == old(self).len
            && keys_of(mels(*final(self))) == keys_of(mels(*old(self)))
            && sel(mels(*final(self)), both(in_lo::<K, T>(rlo::<T, R>(range)), in_hi::<K, T>(rhi::<T, R>(range)))) == fflat(r.iter.work@)
            && sel(mels(*final(self)), neg(both(in_lo::<K, T>(rlo::<T, R>(range)), in_hi::<K, T>(rhi::<T, R>(range)))))
                == sel(mels(*old(self)), neg(both(in_lo::<K, T>(rlo::<T, R>(range)), in_hi::<K, T>(rhi::<T, R>(range))))),
@sub \brange\.contains\( => range.vcontains(
@sub \bk <= ([\w.()]+) => vle(k, \1)
@sub \bk >= ([\w.()]+) => vge(k, \1)
@begin
    let ghost lob = rlo::<T, R>(range);
    let ghost hib = rhi::<T, R>(range);
    let ghost lo = in_lo::<K, T>(lob);
    let ghost hi = in_hi::<K, T>(hib);
    let ghost p = both(lo, hi);
    let ghost m = *self;
    let ghost fin = *final(self);
    broadcast use {group_push, group_mut_push};
    proof {
        node(m.root); node(fin.root); lemma_mwf(m); lemma_alike_wf(m.root, fin.root);
        lemma_ends(Seq::<IterAction<IterMutNode<K, V>>>::empty());
        reveal_with_fuel(sorts, 2);
    }
@loop 0
    invariant
        lawful_q::<K, T>(), bval(lb) == lob, bval(ub) == hib, mut_inv(work@, m, fin, p),
        lob == rlo::<T, R>(range), hib == rhi::<T, R>(range), p == both(lo, hi),
        lo == in_lo::<K, T>(lob), hi == in_hi::<K, T>(hib),
        good(work@), sorts(work@), flat(work@).len() <= m.len,
        sel(flat(work@), p) == sel(mels(m), p),
        lows(work@, lo), highs(work@, hi),
        work@.len() > 0 && work@[0] is Return ==> all_in(act(work@[0]), lo),
        work@.len() > 0 && work@.last() is Return ==> all_in(act(work@.last()), hi),
    ensures work@.len() > 0 ==> work@[0] is Return,
    decreases weight(work@)
@body 0
    broadcast use {group_front, group_mut_front};
    let ghost w0 = work@;
    let ghost a = *(w0[0]->Descend_0);
    let ghost b = *final(w0[0]->Descend_0);
    proof {
        lemma_ends(w0); lemma_range_step::<K, V, IterMutNode<K, V>>(w0);
        assert(w0 =~= seq![w0[0]] + w0.skip(1));
        node(a.left); node(a.right); node(b.left); node(b.right); lemma_alike(a, b);
        lemma_prune::<K, V, T>(els(a.left), (a.key, a.val), els(a.right), lob, hib);
        lemma_assoc4(sel(els(a.left), p), sel(seq![(a.key, a.val)], p), sel(els(a.right), p), sel(flat(w0.skip(1)), p));
        lemma_assoc4(sel(els(b.left), p), sel(seq![(b.key, b.val)], p), sel(els(b.right), p), sel(fflat(w0.skip(1)), p));
        lemma_sel_cat(els(b.left), (b.key, b.val), els(b.right), p);
        lemma_sel_cat(els(a.left), (a.key, a.val), els(a.right), neg(p));
        lemma_sel_cat(els(b.left), (b.key, b.val), els(b.right), neg(p));
        lemma_ends_in(w0.skip(1), lo);
        lemma_flat_in_front(w0.skip(1), w0[0], p); lemma_ff_front(w0.skip(1), w0[0], p); lemma_outs_front(w0.skip(1), w0[0], p);
        lemma_all_in_empty(Seq::<(K, V)>::empty(), p);
    }
@loop 1
    invariant
        lawful_q::<K, T>(), bval(lb) == lob, bval(ub) == hib, mut_inv(work@, m, fin, p),
        lob == rlo::<T, R>(range), hib == rhi::<T, R>(range), p == both(lo, hi),
        lo == in_lo::<K, T>(lob), hi == in_hi::<K, T>(hib),
        good(work@), sorts(work@), flat(work@).len() <= m.len,
        sel(flat(work@), p) == sel(mels(m), p),
        all_in(flat(work@), lo), highs(work@, hi),
        work@.len() > 0 && work@.last() is Return ==> all_in(act(work@.last()), hi),
    ensures work@.len() > 0 ==> work@.last() is Return,
    decreases weight(work@)
@body 1
    broadcast use {group_push, group_mut_push};
    let ghost w0 = work@;
    let ghost a = *(w0.last()->Descend_0);
    let ghost b = *final(w0.last()->Descend_0);
    proof {
        lemma_ends(w0); lemma_range_step::<K, V, IterMutNode<K, V>>(w0);
        assert(w0 =~= w0.drop_last().push(w0.last()));
        node(a.left); node(a.right); node(b.left); node(b.right); lemma_alike(a, b);
        lemma_prune::<K, V, T>(els(a.left), (a.key, a.val), els(a.right), lob, hib);
        lemma_assoc4(sel(els(a.left), p), sel(seq![(a.key, a.val)], p), sel(els(a.right), p), sel(flat(w0.drop_last()), p));
        lemma_assoc4(sel(els(b.left), p), sel(seq![(b.key, b.val)], p), sel(els(b.right), p), sel(fflat(w0.drop_last()), p));
        lemma_sel_cat(els(b.left), (b.key, b.val), els(b.right), p);
        lemma_sel_cat(els(a.left), (a.key, a.val), els(a.right), neg(p));
        lemma_sel_cat(els(b.left), (b.key, b.val), els(b.right), neg(p));
        lemma_ends_in(w0.drop_last(), hi);
        lemma_flat_in_push(w0.drop_last(), w0.last(), p); lemma_ff_push(w0.drop_last(), w0.last(), p); lemma_outs_push(w0.drop_last(), w0.last(), p);
        lemma_all_in_empty(Seq::<(K, V)>::empty(), p);
    }
@past 0
    proof { lemma_ends_in(work@, lo); }
@past 1
    proof {
        lemma_ends_in(work@, hi);
        lemma_none_both(flat(work@), lo, hi);
        lemma_sel_all(flat(work@), p);
        lemma_sel_len(mels(m), p);
        lemma_mut_end(work@, p);
    }
#prop C12
#raw
// --- comparison and hashing: of the entries, in order -----------------------
impl<'a, K, V> VIter for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    spec fn todo(&self) -> Seq<(&'a K, &'a V)> { prefs(flat(self.iter.work@)) }
    #[verifier::prophetic]
    spec fn ok(&self) -> bool { ready(self.iter) }
    // forwards to the contract of the real `next`
    fn next(&mut self) -> (r: Option<(&'a K, &'a V)>) {
        let ghost o = *self;
        let r = Iter::<'a, K, V>::next(self);
        proof {
            match r {
                Some(k) => { assert(prefs::<K, V>(seq![(*k.0, *k.1)] + flat(self.iter.work@)).skip(1) =~= prefs(flat(self.iter.work@))); },
                None => { lemma_ends(self.iter.work@); },
            }
        }
        r
    }
}
proof fn lemma_over_todo<'a, K, V>(i: Iter<'a, K, V>, s: Seq<(K, V)>)
    requires over(i.iter, s),
    ensures i.ok(), i.todo() == prefs::<K, V>(s),
{
}
impl<K, V> AvlMap<K, V> {
    // what AvlMap::for_each hands to its argument (see Node::for_each)
    #[verifier::external_body]
    fn vpairs(&self) -> (r: Vec<(&K, &V)>)
        ensures r@ == prefs::<K, V>(mels(*self))
    { unimplemented!() }
}
#prop C16
#fn PartialEq@AvlMap::eq -> r +where=K:Ord
    requires mwf(*self), mwf(*other),
    ensures r == seq_eq(prefs::<K, V>(mels(*self)), prefs::<K, V>(mels(*other))),
@begin
    proof {
        lemma_prefs(mels(*self)); lemma_prefs(mels(*other)); lemma_mwf(*self); lemma_mwf(*other);
        assert forall|i: Iter<'_, K, V>, s: Seq<(K, V)>| #[trigger] over(i.iter, s) implies i.ok() && i.todo() == prefs::<K, V>(s) by { lemma_over_todo(i, s); }
    }
@sub ([\w.]+\(\))\.zip\( => vzip(\1, 
@sub \.all\(\|\((\w+), (\w+)\)\| \1 == \2\) => .vall_eq()
#fn PartialOrd@AvlMap::partial_cmp -> r +where=K:Ord
    requires mwf(*self), mwf(*other),
    ensures r == lex_pcmp(prefs::<K, V>(mels(*self)), prefs::<K, V>(mels(*other))),
@sub \.partial_cmp\( => .vpcmp(
@begin
    proof {
        assert forall|i: Iter<'_, K, V>, s: Seq<(K, V)>| #[trigger] over(i.iter, s) implies i.ok() && i.todo() == prefs::<K, V>(s) by { lemma_over_todo(i, s); }
    }
#fn Ord@AvlMap::cmp -> r
    requires mwf(*self), mwf(*other),
    ensures r == lex_cmp(prefs::<K, V>(mels(*self)), prefs::<K, V>(mels(*other))),
@sub \.cmp\( => .vcmp(
@begin
    proof {
        assert forall|i: Iter<'_, K, V>, s: Seq<(K, V)>| #[trigger] over(i.iter, s) implies i.ok() && i.todo() == prefs::<K, V>(s) by { lemma_over_todo(i, s); }
    }
#fn Hash@AvlMap::hash +where=K:Ord
    requires mwf(*self),
    ensures *final(state) == hash_ents(absorb(*old(state), self.len), mels(*self)),
@sub ?self\.for_each\(\|\((\w+), (\w+)\)\| \{([\s\S]*)\}\); => for (\1, \2) in it__: self.vpairs() {\3}
@sub \.hash\( => .vhash(
@begin
    let ghost (h0, src) = (absorb(*state, self.len), mels(*self));
@loop 0
    invariant
        it__.seq() == prefs::<K, V>(src), 0 <= it__.index@ <= src.len(),
        *state == hash_ents(h0, src.take(it__.index@)),
@body 0
    proof {
        lemma_prefs(src);
        assert(src.take(it__.index@ + 1).drop_last() =~= src.take(it__.index@));
    }
@past 0
    proof { lemma_prefs(src); assert(src.take(src.len() as int) =~= src); }
#include map.inc
#source src/lib.rs
#item struct Entry
#source src/avl.rs
#subst \.clone\(\) => .vclone()
#fn Map@AvlMap::contains_key_ -> r +where=K:Ord
    requires mwf(*old(self)), lawful_q::<K, Q>(),
    ensures
        r == has_key(mels(*old(self)), qcut::<K, Q>(*key)),
        mels(*final(self)) == mels(*old(self)), mwf(*final(self)),
#fn Map@AvlMap::get_mut_ -> r +where=K:Ord
    requires mwf(*old(self)), lawful_q::<K, Q>(),
    ensures
        r is Some <==> has_key(mels(*old(self)), qcut::<K, Q>(*k)),
        r is None ==> mels(*final(self)) == mels(*old(self)),
        r is Some ==> *(r->0) == (m_get(mels(*old(self)), qcut::<K, Q>(*k))->0).1
            && mels(*final(self)) == m_upd(mels(*old(self)), qcut::<K, Q>(*k), *final(r->0)),
        mwf(*final(self)),
#fn Map@AvlMap::insert_ -> r
    requires mwf(*old(self)), lawful::<K>(), old(self).len < usize::MAX,
    ensures
        mwf(*final(self)),
        mels(*final(self)) == m_ins(mels(*old(self)), key, val),
        r == val_of(m_get(mels(*old(self)), kcut(key))),
#fn Map@AvlMap::new_ -> r +where=K:Ord
    ensures mwf(r), mels(r) == Seq::<(K, V)>::empty(),
@begin
    broadcast use lemma_sorted_empty;
    proof { node(None::<Arc<Node<K, V>>>); }
#include avlhalf.inc
#fn AvlMap::entry -> r
    ensures *r.map == *old(self), *final(r.map) == *final(self), r.key == key,
#fn AvlMap::first_entry -> r
    requires mwf(*old(self)),
    ensures
        mels(*old(self)).len() == 0 ==> r is None && *final(self) == *old(self),
        mels(*old(self)).len() > 0 ==> r is Some && *(r->0).map == *old(self) && *final((r->0).map) == *final(self)
            && (r->0).key == mels(*old(self))[0].0,
#fn AvlMap::last_entry -> r
    requires mwf(*old(self)),
    ensures
        mels(*old(self)).len() == 0 ==> r is None && *final(self) == *old(self),
        mels(*old(self)).len() > 0 ==> r is Some && *(r->0).map == *old(self) && *final((r->0).map) == *final(self)
            && (r->0).key == mels(*old(self)).last().0,
#include setops.inc
#include setbase.inc
#include avlset.inc
#include avlsetcmp.inc
#include footer.inc
