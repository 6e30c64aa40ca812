#prop C13
#item enum MapErr +attr=derive(Debug,Clone,Copy)
#item type InnerHalf
#item struct Half
#item struct Check
#raw
// --- halves: trees under construction from a stream of announced length ------
// the height of, and the number of entries at, the root that l announced entries lead to
spec fn rk(l: int, n: int) -> (int, int)
    decreases l
{
    if l <= 1 { (0, 0) } else if l <= 2 * n + 2 || n < 1 { (1, l - 1) } else {
        let a = rk(l - l / 2, n);
        let b = rk(l / 2, n);
        if a.0 > b.0 { (a.0, a.1 + 1) }
        else if a.1 + 1 + b.1 < 2 * n + 1 { (a.0, a.1 + 1 + b.1) }
        else { (a.0 + 1, 1) }
    }
}
spec fn rle(p: (int, int), q: (int, int)) -> bool { p.0 < q.0 || p.0 == q.0 && p.1 <= q.1 }
spec fn rk_ok(p: (int, int), n: int) -> bool {
    p.0 >= 1 && 1 <= p.1 <= 2 * n + 1 && (p.0 >= 2 ==> p.1 <= 2 * n)
}
spec fn rk_next(p: (int, int), q: (int, int), n: int) -> bool {
    q.0 == p.0 && (q.1 == p.1 || q.1 == p.1 + 1) || q.0 == p.0 + 1 && q.1 == 1 && p.1 >= n
}
proof fn lemma_rk_step(l: int, n: int)
    requires 2 <= l, 1 <= n,
    ensures rk_ok(rk(l, n), n), rk_ok(rk(l + 1, n), n), rk_next(rk(l, n), rk(l + 1, n), n), rk(l, n).0 < l,
    decreases l
{
    reveal_with_fuel(rk, 2);
    if l > 2 * n + 2 {
        let m = l / 2;
        lemma_rk_step(m, n);
        lemma_rk_step(m + 1, n);
        if l % 2 == 0 {
            assert(l - l / 2 == m && (l + 1) / 2 == m && l + 1 - (l + 1) / 2 == m + 1);
        } else {
            assert(l - l / 2 == m + 1 && (l + 1) / 2 == m + 1 && l + 1 - (l + 1) / 2 == m + 1);
        }
    } else if l == 2 * n + 2 {
        assert(l + 1 - (l + 1) / 2 == n + 2 && (l + 1) / 2 == n + 1);
        assert(rk(n + 2, n) == (1int, n + 1));
        assert(rk(n + 1, n) == (1int, n as int));
    }
}
proof fn lemma_rk_mono(l: int, m: int, n: int)
    requires 1 <= l <= m, 1 <= n,
    ensures rle(rk(l, n), rk(m, n)),
    decreases m - l
{
    if l < m {
        if m >= 3 { lemma_rk_step(m - 1, n); } else { reveal_with_fuel(rk, 2); }
        lemma_rk_mono(l, m - 1, n);
    }
}
// a tree whose stream may have ended early: a last child may be missing, nodes may be underpopulated
spec fn loose<K, V, const N: usize>(n: Node<K, V, N>) -> bool
    decreases n
{
    &&& 1 <= n.elems.len() <= 2 * N + 1
    &&& n.kids.len() == 0 || n.kids.len() == n.elems.len() || n.kids.len() == n.elems.len() + 1
    &&& forall|i: int| 0 <= i < n.kids.len() ==> loose(*#[trigger] n.kids[i])
}
proof fn loose_unfold<K, V, const N: usize>(n: Node<K, V, N>)
    ensures
        loose(n) == {
            &&& 1 <= n.elems.len() <= 2 * N + 1
            &&& n.kids.len() == 0 || n.kids.len() == n.elems.len() || n.kids.len() == n.elems.len() + 1
            &&& forall|i: int| 0 <= i < n.kids.len() ==> loose(#[trigger] kd(n, i))
        },
{
    assert(forall|i: int| #![trigger n.kids[i]] #![trigger kd(n, i)] 0 <= i < n.kids.len() ==> *n.kids[i] == kd(n, i));
    if loose(n) {
        assert forall|i: int| 0 <= i < n.kids.len() implies loose(#[trigger] kd(n, i)) by { assert(loose(*n.kids[i])); }
    }
}
proof fn lemma_loose<K, V, const N: usize>(n: Node<K, V, N>)
    requires shp(n, 1), 1 <= N,
    ensures loose(n), (n.kids.len() == 0) == (nh(n) == 1),
    decreases n
{
    shp_unfold(n, 1);
    loose_unfold(n);
    node(n);
    if n.kids.len() > 0 { node(kd(n, 0)); }
    assert forall|i: int| 0 <= i < n.kids.len() implies loose(#[trigger] kd(n, i)) by {
        shp_unfold(kd(n, i), N as int);
        shp_unfold(kd(n, i), 1);
        assert(*n.kids[i] == kd(n, i));
        lemma_loose(kd(n, i));
    }
}
proof fn lemma_loose_lo<K, V, const N: usize>(n: Node<K, V, N>)
    requires shp(n, N as int), 1 <= N,
    ensures loose(n),
{
    shp_unfold(n, N as int);
    shp_unfold(n, 1);
    lemma_loose(n);
}
proof fn lemma_lo<K, V, const N: usize>(n: Node<K, V, N>)
    ensures forall|lo: int, l2: int| #![trigger shp(n, lo), shp(n, l2)] shp(n, lo) && l2 <= n.elems.len() ==> shp(n, l2),
{
    assert forall|lo: int, l2: int| #![trigger shp(n, lo), shp(n, l2)] shp(n, lo) && l2 <= n.elems.len() implies shp(n, l2) by {
        shp_unfold(n, lo); shp_unfold(n, l2);
    }
}
type InHalf<K, V, const N: usize> = (Option<(Arc<Node<K, V, N>>, usize)>, K, V);
spec fn iels<K, V, const N: usize>(h: InHalf<K, V, N>) -> Seq<(K, V)> {
    match h.0 { None => Seq::empty(), Some(x) => nels(*x.0) }
}
spec fn iseq<K, V, const N: usize>(h: InHalf<K, V, N>) -> Seq<(K, V)> { iels(h).push((h.1, h.2)) }
spec fn ipart<K, V, const N: usize>(h: InHalf<K, V, N>, l: int) -> bool {
    &&& iels(h).len() < l <= usize::MAX
    &&& h.0 is Some ==> {
        let (rc, ht) = h.0->0;
        loose(*rc) && ht >= 1 && (rc.kids.len() == 0 <==> ht == 1) && rle((ht as int, rc.elems.len() as int), rk(l, N as int))
    }
}
spec fn iwhole<K, V, const N: usize>(h: InHalf<K, V, N>, l: int) -> bool {
    &&& iels(h).len() + 1 == l <= usize::MAX
    &&& h.0 is Some ==> {
        let (rc, ht) = h.0->0;
        shp(*rc, 1) && ht == nh(*rc) && (ht as int, rc.elems.len() as int) == rk(l, N as int)
    }
}
proof fn lemma_ihalf<K, V, const N: usize>(h: InHalf<K, V, N>, l: int, m: int)
    requires 0 < l <= m <= usize::MAX, 1 <= N,
    ensures
        iwhole(h, l) ==> ipart(h, l) && iseq(h).len() == l,
        ipart(h, l) ==> ipart(h, m) && 1 <= iseq(h).len() <= l,
{
    lemma_rk_mono(l, m, N as int);
    if h.0 is Some {
        let (rc, ht) = h.0->0;
        if shp(an(rc), 1) { lemma_loose(an(rc)); node(an(rc)); }
    }
}
// one more entry at the end
proof fn lemma_app<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, x: (K, V))
    requires f.elems@ == n.elems@.push(x), f.kids@ == n.kids@, n.kids.len() <= n.elems.len() + 1,
    ensures nels(f) == nels(n).push(x),
{
    node(n);
    node(f);
    let (ks, es, e2) = (ksq(n.kids@), n.elems@, f.elems@);
    let m = es.len() as int;
    lemma_il(ks, es, m);
    lemma_il(ks, e2, m);
    lemma_pre_suf(ks, es, m);
    lemma_pre_suf(ks, e2, m);
    lemma_pre_suf(ks, e2, m + 1);
    assert forall|j: int| 0 <= j < m implies es[j] == #[trigger] e2[j] by { }
    lemma_pre_eq(ks, es, ks, e2, m);
    assert(kat(ks, m + 1) =~= Seq::<(K, V)>::empty());
    assert(nels(f) =~= nels(n).push(x));
}
// one more entry, and the child after it
proof fn lemma_hang<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, x: (K, V), c: Arc<Node<K, V, N>>)
    requires f.elems@ == n.elems@.push(x), f.kids@ == n.kids@.push(c), n.kids.len() == n.elems.len() + 1,
    ensures nels(f) == nels(n).push(x) + nels(*c),
{
    node(n);
    node(f);
    let (ka, ea) = (ksq(n.kids@), n.elems@);
    let kb = seq![nels(an(c))];
    let eb = Seq::<(K, V)>::empty();
    lemma_il_join(ka, ea, x, kb, eb);
    assert(ksq(f.kids@) =~= ka + kb);
    assert(f.elems@ =~= ea + seq![x] + eb);
    lemma_pre_suf(kb, eb, 0);
    assert(kat(kb, 0) == nels(*c));
    assert(il(kb, eb) =~= nels(*c));
    assert(nels(f) =~= nels(n).push(x) + nels(*c));
}
// two nodes side by side
proof fn lemma_beside<K, V, const N: usize>(n: Node<K, V, N>, f: Node<K, V, N>, x: (K, V), c: Node<K, V, N>)
    requires
        f.elems@ == n.elems@.push(x) + c.elems@, f.kids@ == n.kids@ + c.kids@,
        n.kids.len() == n.elems.len() + 1 || n.kids.len() == 0 && c.kids.len() == 0,
    ensures nels(f) == nels(n).push(x) + nels(c),
{
    node(n);
    node(f);
    node(c);
    lemma_il_join(ksq(n.kids@), n.elems@, x, ksq(c.kids@), c.elems@);
    assert(ksq(f.kids@) =~= ksq(n.kids@) + ksq(c.kids@));
    assert(f.elems@ =~= n.elems@ + seq![x] + c.elems@);
    assert(nels(f) =~= nels(n).push(x) + nels(c));
}
// a root over two
proof fn lemma_over<K, V, const N: usize>(f: Node<K, V, N>, a: Node<K, V, N>, x: (K, V), b: Node<K, V, N>)
    requires f.elems@ == seq![x], f.kids.len() == 2, kd(f, 0) == a, kd(f, 1) == b,
    ensures nels(f) == nels(a).push(x) + nels(b), nh(f) == nh(a) + 1,
{
    node(f);
    let (ks, es) = (ksq(f.kids@), f.elems@);
    lemma_pre_suf(ks, es, 0);
    lemma_pre_suf(ks, es, 1);
    assert(kat(ks, 0) == nels(a));
    assert(kat(ks, 1) == nels(b));
    assert(nels(f) =~= nels(a).push(x) + nels(b));
}
// lf is all of a announced entries, rt is part of the b that follow
spec fn meet<K, V, const N: usize>(rt: InHalf<K, V, N>, a: int, b: int) -> bool {
    ipart(rt, b) && b <= a <= b + 1 && 2 * N + 2 < a + b <= usize::MAX
}
// what stitching gives: see Node::stitch
spec fn met<K, V, const N: usize>(rt: InHalf<K, V, N>, r: InHalf<K, V, N>, a: int, b: int) -> bool {
    ipart(r, a + b) && (iwhole(rt, b) ==> iwhole(r, a + b))
}
// the ranks met in Node::stitch
proof fn lemma_meet_rk<K, V, const N: usize>(lf: InHalf<K, V, N>, rt: InHalf<K, V, N>, a: int, b: int)
    requires iwhole(lf, a), meet(rt, a, b), okn::<N>(),
    ensures ({
        let n = N as int;
        let (p, q, t) = (rk(a, n), rk(b, n), rk(a + b, n));
        &&& a >= 2 && b >= 2 && lf.0 is Some
        &&& rk_ok(p, n) && rk_ok(q, n) && rk_ok(t, n)
        &&& p == q || rk_next(q, p, n)
        &&& t == (if p.0 > q.0 { (p.0, p.1 + 1) } else if p.1 + 1 + q.1 < 2 * n + 1 { (p.0, p.1 + 1 + q.1) } else { (p.0 + 1, 1) })
        &&& p.0 < usize::MAX
        &&& iwhole(rt, b) ==> rt.0 is Some
    }),
{
    let n = N as int;
    lemma_rk_step(b, n);
    lemma_rk_step(a, n);
    lemma_rk_step(a + b, n);
    assert((a + b) / 2 == b && a + b - (a + b) / 2 == a);
    reveal_with_fuel(rk, 2);
}
spec fn vfrom<K: Ord, V>(o: Option<K>, s: Seq<(K, V)>) -> bool { o is Some ==> all_gt(s, o->0) }
spec fn vupto<K, V>(o: Option<K>, s: Seq<(K, V)>) -> Option<K> { if s.len() > 0 { Some(s.last().0) } else { o } }
spec fn oval<K>(g: Option<&K>) -> Option<K> { match g { Some(k) => Some(*k), None => None } }
// s is in order, and above o
spec fn upward_from<K: Ord, V>(o: Option<K>, s: Seq<(K, V)>) -> bool { sorted(s) && vfrom(o, s) }
proof fn lemma_chain<K: Ord, V>(o: Option<K>, s: Seq<(K, V)>, t: Seq<(K, V)>)
    requires lawful::<K>(),
    ensures
        upward_from(o, s + t) <==> upward_from(o, s) && upward_from(vupto(o, s), t),
        vupto(o, s + t) == vupto(vupto(o, s), t),
{
    reveal(all_gt);
    reveal(sorted);
    let u = s + t;
    assert(forall|i: int| 0 <= i < s.len() ==> u[i] == s[i]);
    assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] u[s.len() + i] == t[i]);
    if t.len() > 0 { assert(u.last() == t.last()); } else { assert(u =~= s); }
    if upward_from(o, u) {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies lt(#[trigger] t[i].0, #[trigger] t[j].0) by {
            assert(lt(u[s.len() + i].0, u[s.len() + j].0));
        }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies lt(#[trigger] s[i].0, #[trigger] s[j].0) by {
            assert(lt(u[i].0, u[j].0));
        }
        if s.len() > 0 {
            assert forall|i: int| 0 <= i < t.len() implies lt(s.last().0, #[trigger] t[i].0) by {
                assert(lt(u[s.len() - 1].0, u[s.len() + i].0));
            }
        }
        if o is Some {
            assert forall|i: int| 0 <= i < s.len() implies lt(o->0, #[trigger] s[i].0) by { assert(lt(o->0, u[i].0)); }
            assert forall|i: int| 0 <= i < t.len() implies lt(o->0, #[trigger] t[i].0) by { assert(lt(o->0, u[s.len() + i].0)); }
        }
    }
    if upward_from(o, s) && upward_from(vupto(o, s), t) {
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies lt(#[trigger] u[i].0, #[trigger] u[j].0) by {
            if j < s.len() { }
            else if i >= s.len() { assert(lt(t[i - s.len()].0, t[j - s.len()].0)); }
            else {
                assert(lt(s.last().0, t[j - s.len()].0));
                if i < s.len() - 1 { assert(lt(s[i].0, s.last().0)); law_trans(s[i].0, s.last().0, t[j - s.len()].0); }
            }
        }
        if o is Some {
            assert forall|i: int| 0 <= i < u.len() implies lt(o->0, #[trigger] u[i].0) by {
                if i < s.len() { assert(lt(o->0, s[i].0)); }
                else {
                    assert(lt(vupto(o, s)->0, t[i - s.len()].0));
                    if s.len() > 0 { assert(lt(o->0, s.last().0)); law_trans(o->0, s.last().0, t[i - s.len()].0); }
                }
            }
        }
    }
}
proof fn lemma_chain_one<K: Ord, V>(o: Option<K>, e: (K, V))
    requires lawful::<K>(),
    ensures
        upward_from(o, seq![e]) <==> (o is Some ==> lt(o->0, e.0)),
        vupto(o, seq![e]) == Some(e.0),
        upward_from(o, Seq::<(K, V)>::empty()), vupto(o, Seq::<(K, V)>::empty()) == o,
        upward_from(None::<K>, Seq::<(K, V)>::empty()),
{
    reveal(all_gt);
    reveal(sorted);
    let s = seq![e];
    assert(s[0] == e);
    if o is Some && vfrom(o, s) { assert(lt(o->0, s[0].0)); }
}
// what checking a (sub)tree from o on tells, when it finds nothing
spec fn fine<K: Ord, V, const N: usize>(n: Node<K, V, N>, o: Option<K>, lo: int, c: Check<K>) -> bool {
    &&& shp(n, lo)
    &&& upward_from(o, nels(n))
    &&& c.ht == nh(n)
    &&& c.len == nels(n).len()
    &&& oval(c.greatest) == vupto(o, nels(n))
}
// how checking a node n from o on stands before child i
spec fn up_to_kid<K: Ord, V, const N: usize>(n: Node<K, V, N>, o: Option<K>, i: int, ht: int, len: int, pred: Option<K>) -> bool {
    let s = pre(ksq(n.kids@), n.elems@, i);
    &&& upward_from(o, s)
    &&& pred == vupto(o, s)
    &&& len + i == s.len()
    &&& forall|j: int| 0 <= j < i && j < n.kids.len() ==> shp(#[trigger] kd(n, j), N as int) && nh(kd(n, j)) == ht
    &&& n.kids.len() == 0 ==> ht == 0
}
// child i and entry i are checked
proof fn lemma_kid_entry<K: Ord, V, const N: usize>(n: Node<K, V, N>, o: Option<K>, i: int, ht: int, len: int, pred: Option<K>)
    requires lawful::<K>(), 0 <= i < n.elems.len(), up_to_kid(n, o, i, ht, len, pred),
    ensures
        pre(ksq(n.kids@), n.elems@, i + 1) == pre(ksq(n.kids@), n.elems@, i) + kat(ksq(n.kids@), i) + seq![n.elems@[i]],
        kat(ksq(n.kids@), i) == (if i < n.kids.len() { nels(kd(n, i)) } else { Seq::empty() }),
        i >= n.kids.len() ==> upward_from(pred, kat(ksq(n.kids@), i)) && vupto(pred, kat(ksq(n.kids@), i)) == pred,
        ({
            let t = kat(ksq(n.kids@), i);
            let e = n.elems@[i].0;
            upward_from(pred, t) && (vupto(pred, t) is Some ==> lt(vupto(pred, t)->0, e))
                && (i < n.kids.len() ==> shp(kd(n, i), N as int) && nh(kd(n, i)) == ht)
                ==> up_to_kid(n, o, i + 1, ht, len + t.len(), Some(e))
        }),
{
    let (ks, es) = (ksq(n.kids@), n.elems@);
    let s = pre(ks, es, i);
    let t = kat(ks, i);
    lemma_pre_suf(ks, es, i + 1);
    lemma_chain(o, s, t);
    lemma_chain(o, s + t, seq![es[i]]);
    lemma_chain_one(vupto(o, s + t), es[i]);
    lemma_chain_one(pred, es[i]);
}
// the last child is checked
proof fn lemma_kid_last<K: Ord, V, const N: usize>(n: Node<K, V, N>, o: Option<K>, lo: int, ht: int, len: int, pred: Option<K>, greatest: Option<K>)
    requires
        lawful::<K>(), loose(n), lo <= n.elems.len(),
        up_to_kid(n, o, n.elems.len() as int, ht, len, pred),
        n.kids.len() > 0 ==> {
            let k = kd(n, n.kids.len() - 1);
            upward_from(pred, nels(k)) && greatest == vupto(pred, nels(k)) && shp(k, N as int) && nh(k) == ht
        },
        n.kids.len() == 0 ==> greatest == pred,
    ensures
        shp(n, lo), upward_from(o, nels(n)), nh(n) == ht + 1, greatest == vupto(o, nels(n)),
        nels(n).len() == n.elems.len() + len + (if n.kids.len() == 0 { 0 } else { nels(kd(n, n.kids.len() - 1)).len() as int }),
{
    let (ks, es) = (ksq(n.kids@), n.elems@);
    let m = es.len() as int;
    let s = pre(ks, es, m);
    node(n);
    loose_unfold(n);
    shp_unfold(n, lo);
    lemma_il(ks, es, m);
    lemma_pre_suf(ks, es, m);
    if n.kids.len() == 0 {
        assert(nels(n) =~= s);
    } else {
        let k = kd(n, n.kids.len() - 1);
        let t = nels(k);
        lemma_chain(o, s, t);
        if n.kids.len() == m {
            // then this child was checked before: its entries would lie above themselves
            assert(kat(ks, m - 1) == t);
            assert(s == pre(ks, es, m - 1) + t + seq![es[m - 1]]);
            loose_unfold(k);
            assert(nels(k).len() > 0) by { lemma_il_len1(ksq(k.kids@), k.elems@); node(k); }
            let p = pre(ks, es, m - 1).len() as int;
            assert((s + t)[p] == t[0] && (s + t)[s.len() as int] == t[0]);
            reveal(sorted);
            assert(lt((s + t)[p].0, (s + t)[s.len() as int].0));
            law_flip(t[0].0, t[0].0);
            assert(false);
        }
        assert(kat(ks, m) == t);
        assert(nels(n) =~= s + t);
        assert(nh(kd(n, 0)) == ht);
        assert(fan(n));
        assert forall|j: int| 0 <= j < n.kids.len() implies shp(#[trigger] kd(n, j), N as int) && nh(kd(n, j)) + 1 == nh(n) by { }
    }
}
proof fn lemma_il_len1<E>(ks: Seq<Seq<E>>, es: Seq<E>)
    requires es.len() >= 1,
    ensures il(ks, es).len() >= 1,
{
    lemma_pre_suf(ks, es, 0);
}
#raw
proof fn lemma_kid_small<K, V, const N: usize>(n: Node<K, V, N>, i: int)
    requires 0 <= i <= n.elems.len(), n.elems.len() >= 1,
    ensures
        pre(ksq(n.kids@), n.elems@, i).len() + kat(ksq(n.kids@), i).len() <= nels(n).len(),
        i < n.kids.len() ==> nels(kd(n, i)).len() < nels(n).len() && kat(ksq(n.kids@), i) == nels(kd(n, i)),
{
    let (ks, es) = (ksq(n.kids@), n.elems@);
    node(n);
    lemma_il(ks, es, i);
    lemma_pre_suf(ks, es, i);
}
proof fn lemma_nh_len<K, V, const N: usize>(n: Node<K, V, N>)
    requires loose(n),
    ensures nh(n) <= nels(n).len(),
    decreases n
{
    loose_unfold(n);
    node(n);
    lemma_kid_small(n, 0);
    if n.kids.len() > 0 { assert(*n.kids[0] == kd(n, 0)); lemma_nh_len(kd(n, 0)); }
}
fn vopt_ge<K: Ord>(g: Option<&K>, k: &K) -> (r: bool)
    ensures r == (g is Some && !((*(g->0)).cmp_spec(k) is Less)),
{
    match g { Some(x) => vge(x, k), None => false }
}
#fn chk_node_ptr -> r
    requires n is Some ==> loose(**(n->0)) && nels(**(n->0)).len() <= usize::MAX, okn::<N>(), min_pop == 1 || min_pop == N, lawful::<K>(),
    ensures
        match n {
            Some(n) => {
                &&& r is Ok ==> fine(**n, oval(pred), min_pop as int, r->Ok_0)
                &&& r is Err ==> !(r->Err_0 is BadLen) && (shp(**n, min_pop as int) ==> r->Err_0 is Unsorted)
            },
            None => r is Ok && (r->Ok_0).ht == 0 && (r->Ok_0).len == 0 && (r->Ok_0).greatest == pred,
        },
    decreases (if n is Some { 2 * nels(**(n->0)).len() + 1 } else { 0 })
#fn Node::chk -> r +noiso
    requires loose(*self), nels(*self).len() <= usize::MAX, okn::<N>(), min_pop == 1 || min_pop == N, lawful::<K>(),
    ensures
        r is Ok ==> fine(*self, oval(prev), min_pop as int, r->Ok_0),
        r is Err ==> !(r->Err_0 is BadLen) && (shp(*self, min_pop as int) ==> r->Err_0 is Unsorted),
    decreases 2 * nels(*self).len()
@sub ([\w.]+(?:\(\))?) >= (self\.key\(\w+\)) => vge(\1, \2)
@begin
    let ghost o = oval(prev);
    let ghost h0: int = if self.kids.len() == 0 { 0int } else { nh(kd(*self, 0)) as int };
    proof {
        broadcast use group_order;
        loose_unfold(*self); shp_unfold(*self, min_pop as int);
        lemma_chain_one(o, self.elems@[0]);
        lemma_pre_suf(ksq(self.kids@), self.elems@, 0);
        lemma_kid_entry(*self, o, 0, h0, 0, o);
        lemma_kid_small(*self, 0);
        if self.kids.len() > 0 { lemma_kid_small(*self, self.kids.len() - 1); lemma_nh_len(kd(*self, 0)); }
        node(*self);
    }
@loop 0
    invariant
        1 <= i <= self.elems.len(),
        h0 == ht, up_to_kid(*self, o, i as int, ht as int, len as int, oval(pred)), pred is Some,
@body 0
    proof {
        lemma_kid_entry(*self, o, i as int, ht as int, len as int, oval(pred));
        lemma_kid_small(*self, i as int);
    }
@past 0
    proof {
        let k = kd(*self, self.kids.len() - 1);
        let g = if self.kids.len() == 0 { oval(pred) } else { vupto(oval(pred), nels(k)) };
        if self.kids.len() > 0 ==> upward_from(oval(pred), nels(k)) && shp(k, N as int) && nh(k) == ht {
            lemma_kid_last(*self, o, min_pop as int, ht as int, len as int, oval(pred), g);
        }
    }
#fn BTreeMap::chk -> r
    requires self.root is Some ==> loose(an(self.root->0)), mels(*self).len() <= usize::MAX, okn::<N>(), lawful::<K>(),
    ensures
        r is Ok ==> mwf(*self),
        r is Err ==> match r->Err_0 {
            MapErr::BadLen(n) => n == mels(*self).len() && mwf(BTreeMap { len: n, root: self.root }),
            MapErr::Unsorted => true,
            _ => self.root is None || !shp(an(self.root->0), 1),
        },
@begin
    broadcast use lemma_sorted_empty;
    proof {
        if self.root is Some {
            assert(mels(*self) == nels(an(self.root->0)));
        }
    }
#raw
spec fn stitched<K, V, const N: usize>(p0: InHalf<K, V, N>, p1: InHalf<K, V, N>, r: InHalf<K, V, N>) -> bool {
    let a = iseq(p0).len() as int;
    &&& iseq(r) == iseq(p0) + iseq(p1)
    &&& forall|b: int| #[trigger] meet(p1, a, b) ==> met(p1, r, a, b)
}
spec fn to_stitch<K, V, const N: usize>(p0: InHalf<K, V, N>, p1: InHalf<K, V, N>) -> bool {
    &&& okn::<N>() && iwhole(p0, iseq(p0).len() as int)
    &&& exists|b: int| #[trigger] meet(p1, iseq(p0).len() as int, b)
}
spec fn nd<K, V, const N: usize>(p: InHalf<K, V, N>) -> Node<K, V, N> { *(p.0->0).0 }
spec fn htof<K, V, const N: usize>(p: InHalf<K, V, N>) -> int { (p.0->0).1 as int }
// only one entry came after the left half, and there is room for another in its root
proof fn stitch_app<K, V, const N: usize>(p0: InHalf<K, V, N>, p1: InHalf<K, V, N>, r: InHalf<K, V, N>)
    requires
        to_stitch(p0, p1), p1.0 is None, r.0 is Some, r.1 == p1.1, r.2 == p1.2, htof(r) == htof(p0),
        nd(r).elems@ == nd(p0).elems@.push((p0.1, p0.2)), nd(r).kids@ == nd(p0).kids@, nd(r).elems.len() <= 2 * N + 1,
    ensures stitched(p0, p1, r),
{
    let (n, f) = (nd(p0), nd(r));
    let a = iseq(p0).len() as int;
    let b0 = choose|b: int| #[trigger] meet(p1, a, b);
    lemma_meet_rk(p0, p1, a, b0);
    node(n); lemma_loose(n); loose_unfold(n); shp_unfold(n, 1);
    lemma_app(n, f, (p0.1, p0.2));
    assert(iseq(r) =~= iseq(p0) + iseq(p1));
    loose_unfold(f);
    assert forall|j: int| 0 <= j < f.kids.len() implies loose(#[trigger] kd(f, j)) by { assert(kd(f, j) == kd(n, j)); }
    assert forall|b: int| #[trigger] meet(p1, a, b) implies met(p1, r, a, b) by { lemma_meet_rk(p0, p1, a, b); }
}
// the same, and the root (a leaf) had to be split
proof fn stitch_split<K, V, const N: usize>(p0: InHalf<K, V, N>, p1: InHalf<K, V, N>, r: InHalf<K, V, N>)
    requires
        to_stitch(p0, p1), p1.0 is None, r.0 is Some, r.1 == p1.1, r.2 == p1.2, htof(r) == htof(p0) + 1,
        nd(p0).elems.len() == 2 * N + 1, nd(r).kids.len() == 2, nd(r).elems.len() == 1,
        shp(kd(nd(r), 0), N as int), shp(kd(nd(r), 1), N as int),
        cat(nels(kd(nd(r), 0)), nd(r).elems@[0], nels(kd(nd(r), 1))) == nels(nd(p0)).push((p0.1, p0.2)),
    ensures stitched(p0, p1, r),
{
    let (n, f) = (nd(p0), nd(r));
    let a = iseq(p0).len() as int;
    let b0 = choose|b: int| #[trigger] meet(p1, a, b);
    lemma_meet_rk(p0, p1, a, b0);
    lemma_loose(n);
    assert(f.elems@ =~= seq![f.elems@[0]]);
    lemma_over(f, kd(f, 0), f.elems@[0], kd(f, 1));
    assert(nels(f) =~= nels(n).push((p0.1, p0.2)));
    assert(iseq(r) =~= iseq(p0) + iseq(p1));
    lemma_loose_lo(kd(f, 0)); lemma_loose_lo(kd(f, 1));
    loose_unfold(f);
    assert(loose(f)) by {
        assert forall|j: int| 0 <= j < f.kids.len() implies loose(#[trigger] kd(f, j)) by { if j == 0 { } else { assert(j == 1); } }
    }
    assert forall|b: int| #[trigger] meet(p1, a, b) implies met(p1, r, a, b) by { lemma_meet_rk(p0, p1, a, b); }
}
// the right half goes under the left one's root
proof fn stitch_hang<K, V, const N: usize>(p0: InHalf<K, V, N>, p1: InHalf<K, V, N>, r: InHalf<K, V, N>)
    requires
        to_stitch(p0, p1), p1.0 is Some, r.0 is Some, r.1 == p1.1, r.2 == p1.2, htof(r) == htof(p0),
        htof(p0) > htof(p1),
        nd(r).elems@ == nd(p0).elems@.push((p0.1, p0.2)), nd(r).kids@ == nd(p0).kids@.push((p1.0->0).0),
    ensures stitched(p0, p1, r),
{
    let (n, f, c) = (nd(p0), nd(r), nd(p1));
    let a = iseq(p0).len() as int;
    let b0 = choose|b: int| #[trigger] meet(p1, a, b);
    lemma_meet_rk(p0, p1, a, b0);
    node(n); node(f); lemma_loose(n); loose_unfold(n); shp_unfold(n, 1);
    lemma_hang(n, f, (p0.1, p0.2), (p1.0->0).0);
    assert(iseq(r) =~= iseq(p0) + iseq(p1));
    loose_unfold(f);
    assert forall|j: int| 0 <= j < f.kids.len() implies loose(#[trigger] kd(f, j)) by {
        if j < n.kids.len() { assert(kd(f, j) == kd(n, j)); } else { assert(kd(f, j) == c); }
    }
    assert forall|b: int| #[trigger] meet(p1, a, b) implies met(p1, r, a, b) by {
        lemma_meet_rk(p0, p1, a, b);
        if iwhole(p1, b) {
            assert(kd(f, 0) == kd(n, 0));
            lemma_lo(c);
            assert(shp(c, N as int));
            shp_unfold(f, 1);
            assert forall|j: int| 0 <= j < f.kids.len() implies shp(#[trigger] kd(f, j), N as int) && nh(kd(f, j)) + 1 == nh(f) by {
                if j < n.kids.len() { assert(kd(f, j) == kd(n, j)); } else { assert(kd(f, j) == c); }
            }
            assert(shp(f, 1));
        }
    }
}
// both roots fit into one node
proof fn stitch_beside<K, V, const N: usize>(p0: InHalf<K, V, N>, p1: InHalf<K, V, N>, r: InHalf<K, V, N>)
    requires
        to_stitch(p0, p1), p1.0 is Some, r.0 is Some, r.1 == p1.1, r.2 == p1.2, htof(r) == htof(p0),
        htof(p0) == htof(p1), nd(p0).elems.len() + 1 + nd(p1).elems.len() < 2 * N + 1,
        nd(r).elems@ == nd(p0).elems@.push((p0.1, p0.2)) + nd(p1).elems@, nd(r).kids@ == nd(p0).kids@ + nd(p1).kids@,
    ensures stitched(p0, p1, r),
{
    let (n, f, c) = (nd(p0), nd(r), nd(p1));
    let x = (p0.1, p0.2);
    let a = iseq(p0).len() as int;
    let b0 = choose|b: int| #[trigger] meet(p1, a, b);
    lemma_meet_rk(p0, p1, a, b0);
    node(n); node(f); node(c); lemma_loose(n); loose_unfold(n); loose_unfold(c); shp_unfold(n, 1);
    lemma_beside(n, f, x, c);
    assert(iseq(r) =~= iseq(p0) + iseq(p1));
    loose_unfold(f);
    assert forall|j: int| 0 <= j < f.kids.len() implies loose(#[trigger] kd(f, j)) by {
        if j < n.kids.len() { assert(kd(f, j) == kd(n, j)); } else { assert(kd(f, j) == kd(c, j - n.kids.len())); }
    }
    assert forall|b: int| #[trigger] meet(p1, a, b) implies met(p1, r, a, b) by {
        lemma_meet_rk(p0, p1, a, b);
        if iwhole(p1, b) {
            kok_shp(n, 1); kok_shp(c, 1); kok_shp(f, 1);
            assert(f.elems@ =~= n.elems@ + seq![x] + c.elems@);
            shp_unfold(c, 1);
            lemma_loose(c);
            side_facts(f, n, x, c);
        }
    }
}
// a new root over both
proof fn stitch_over<K, V, const N: usize>(p0: InHalf<K, V, N>, p1: InHalf<K, V, N>, r: InHalf<K, V, N>)
    requires
        to_stitch(p0, p1), p1.0 is Some, r.0 is Some, r.1 == p1.1, r.2 == p1.2, htof(r) == htof(p0) + 1,
        htof(p0) == htof(p1), nd(p0).elems.len() + 1 + nd(p1).elems.len() >= 2 * N + 1,
        nd(r).elems@ == seq![(p0.1, p0.2)], nd(r).kids.len() == 2, kd(nd(r), 0) == nd(p0), kd(nd(r), 1) == nd(p1),
    ensures stitched(p0, p1, r),
{
    let (n, f, c) = (nd(p0), nd(r), nd(p1));
    let x = (p0.1, p0.2);
    let a = iseq(p0).len() as int;
    let b0 = choose|b: int| #[trigger] meet(p1, a, b);
    lemma_meet_rk(p0, p1, a, b0);
    node(n); node(f); node(c); lemma_loose(n);
    lemma_over(f, n, x, c);
    assert(iseq(r) =~= iseq(p0) + iseq(p1));
    loose_unfold(f);
    assert(loose(f)) by {
        assert forall|j: int| 0 <= j < f.kids.len() implies loose(#[trigger] kd(f, j)) by { if j == 0 { } else { assert(j == 1); } }
    }
    assert forall|b: int| #[trigger] meet(p1, a, b) implies met(p1, r, a, b) by {
        lemma_meet_rk(p0, p1, a, b);
        if iwhole(p1, b) {
            lemma_lo(c); lemma_lo(n);
            assert(shp(c, N as int));
            assert(shp(n, N as int));
            shp_unfold(f, 1);
            assert forall|j: int| 0 <= j < f.kids.len() implies shp(#[trigger] kd(f, j), N as int) && nh(kd(f, j)) + 1 == nh(f) by { if j == 0 { } else { assert(j == 1); } }
            assert(shp(f, 1));
        }
    }
}
#fn Node::stitch -> r
    requires to_stitch(lf, rt),
    ensures stitched(lf, rt, r),
@sub ?\bArc::get_mut\( => arc_get_mut_unique(
@begin
    let ghost a = iseq(lf).len() as int;
    let ghost x = (lf.1, lf.2);
    let ghost p0 = lf;
    let ghost p1 = rt;
    let ghost n0 = nd(lf);
    let ghost c0 = nd(rt);
    proof {
        let b = choose|b: int| #[trigger] meet(rt, a, b);
        lemma_meet_rk(lf, rt, a, b);
        shp_unfold(n0, 1); node(n0); lemma_loose(n0);
        loose_unfold(c0);
        kok_shp(n0, 1);
        // a leaf with one more entry
        assert forall|m: Node<K, V, N>| #![trigger kok(m)] #![trigger nels(m)] m.elems@ == n0.elems@.push(x) && m.kids@ == n0.kids@ implies
            nels(m) == nels(n0).push(x) && (n0.kids.len() == 0 ==> kok(m) && nh(m) == 1) by {
            lemma_app(n0, m, x);
            node(m);
        }
    }
@tail
    proof {
        let f = nd(__r);
        assert(f.kids.len() == 2 && f.elems.len() == 1 ==> f.elems@ =~= seq![f.elems@[0]]);
        if p1.0 is None {
            if n0.elems.len() <= 2 * N { stitch_app(p0, p1, __r); } else { stitch_split(p0, p1, __r); }
        } else if htof(p0) > htof(p1) {
            stitch_hang(p0, p1, __r);
        } else if n0.elems.len() + 1 + c0.elems.len() < 2 * N + 1 {
            assert(f.elems@ =~= n0.elems@.push(x) + c0.elems@);
            assert(f.kids@ =~= n0.kids@ + c0.kids@);
            stitch_beside(p0, p1, __r);
        } else {
            stitch_over(p0, p1, __r);
        }
    }
#raw
#[verifier::external_body]
fn verr_msg(e: MapErr) -> (r: String)
    ensures e is Unsorted ==> unsorted_msg(r),
{ format!("{e:?}") }
#[verifier::external_body]
fn vunsorted_msg() -> (r: String)
    ensures unsorted_msg(r),
{ "Unsorted".to_string() }
#raw
broadcast axiom fn axiom_yields_loose<K, V, const N: usize>(m: BTreeMap<K, V, N>)
    requires m.root is Some ==> loose(an(m.root->0)),
    ensures #[trigger] yields::<BTreeMap<K, V, N>>(m) == mels(m);
#const MAX_HALF_LEN -> impl<K, V, const N: usize> BTreeMap<K, V, N>
    requires okn::<N>(),
    ensures r == 2 * N + 2,
#fn Map@BTreeMap::check_half -> r
    requires iwhole(h.h, iseq(h.h).len() as int), okn::<N>(), lawful::<K>(),
    ensures match r { Ok(n) => n == iseq(h.h).len(), Err(e) => unsorted_msg(e) },
@sub ?(\w+) >= (&[\w.]+) => vge(\1, \2)
@begin
    broadcast use group_order;
    proof { if h.h.0 is Some { lemma_loose(nd(h.h)); } }
@sub ?format!\("\{e:\?\}"\) => verr_msg(e)
@sub ?"Unsorted"\.to_string\(\) => vunsorted_msg()
@closure 0 (e: &(Arc<Node<K, V, N>>, usize)) -> (r: &Arc<Node<K, V, N>>)
    ensures r == e.0,
#fn Map@BTreeMap::make_half -> r
    requires okn::<N>(), 1 <= old(elems)@.len() <= 2 * N + 2,
    ensures
        iseq(r.h) == old(elems)@, final(elems)@.len() == 0,
        iwhole(r.h, old(elems)@.len() as int),
@sub ?\(1\.\.=(.*)\)\.contains\(&([\w.]+\(\))\) => (1 <= \2 && \2 <= (\1))
@begin
    let ghost s0 = elems@;
    proof { reveal_with_fuel(rk, 2); }
@tail
    proof {
        if __r.h.0 is Some { node(nd(__r.h)); shp_unfold(nd(__r.h), 1); }
        assert(iseq(__r.h) =~= s0);
    }
#fn Map@BTreeMap::make_whole -> r
    requires okn::<N>(), lawful::<K>(), ipart(h.h, len as int), iseq(h.h).len() < usize::MAX,
    ensures mwf(r), mels(r) == m_ext(Seq::<(K, V)>::empty(), iseq(h.h)),
@begin
    broadcast use {axiom_yields_loose, lemma_sorted_empty};
    proof {
        lemma_one_more(iels(h.h), h.h.1, h.h.2);
        lemma_ext(Seq::<(K, V)>::empty(), iels(h.h));
    }
@closure 0 (x: (Arc<Node<K, V, N>>, usize)) -> (r: Arc<Node<K, V, N>>)
    ensures r == x.0,
#fn Map@BTreeMap::stitch -> r
    requires to_stitch(lf.h, rt.h),
    ensures stitched(lf.h, rt.h, r.h),
#include serdeout.inc
#fn IntoIterator@BTreeMap::into_iter -> r +where=K:Ord +nth=1 +name=into_iter_ref
    requires mwf(*self),
    ensures over(r.iter, mels(*self)),
#raw
// what `for x in &map` goes through
fn drain_ref<'a, K: Clone + Ord, V: Clone, const N: usize>(m: &'a BTreeMap<K, V, N>) -> (r: Vec<(&'a K, &'a V)>)
    requires mwf(*m),
    ensures
        r@.len() == mels(*m).len(),
        forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == mels(*m)[i].0 && *r@[i].1 == mels(*m)[i].1,
{
    let mut v: Vec<(&'a K, &'a V)> = Vec::new();
    let mut it = m.into_iter_ref();
    let ghost mut w: Seq<(K, V)> = Seq::empty();
    proof { assert(w + mels(*m) =~= mels(*m)); }
    loop
        invariant
            ready(it.iter), makes(it.iter.make_node_iter), it.iter.len == flat(it.iter.work@).len(),
            mels(*m) == w + flat(it.iter.work@),
            w.len() == v@.len(),
            forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] v@[i]).0 == w[i].0 && *v@[i].1 == w[i].1,
        ensures mels(*m) == w,
        decreases flat(it.iter.work@).len(),
    {
        let ghost w0 = it.iter.work@;
        let ghost v0 = w;
        match it.next() {
            Some(x) => {
                v.push(x);
                proof { w = w.push((*x.0, *x.1)); assert(v0 + (seq![(*x.0, *x.1)] + flat(it.iter.work@)) =~= w + flat(it.iter.work@)); }
            }
            None => { proof { lemma_ends(it.iter.work@); assert(w + flat(w0) =~= w); } break; }
        }
    }
    v
}
#subst \bserde::ser::Serializer\b => VSerializer
#subst \bserde::ser::Serialize\b => Sized
#subst \buse\s+serde::ser::SerializeMap; => {}
#fn Serialize@BTreeMap::serialize -> r +where=K:Clone+Ord,V:Clone
    requires mwf(*self),
    ensures r is Ok ==> <S::Map as VSerMap>::made(r->Ok_0) == toks(mels(*self)) && <S::Map as VSerMap>::said(r->Ok_0) == Some(mels(*self).len() as usize),
@sub \bin self(?:\.(?:iter|into_iter)\(\))?(?=\s*\{) => in it__: drain_ref(self)
@begin
    let ghost s0 = mels(*self);
    proof { lemma_toks(s0); }
@loop 0
    invariant
        it__.seq().len() == s0.len(), 0 <= it__.index@ <= s0.len(), s0 == mels(*self),
        forall|i: int| 0 <= i < s0.len() ==> *(#[trigger] it__.seq()[i]).0 == s0[i].0 && *it__.seq()[i].1 == s0[i].1,
        map.put() == toks(s0.take(it__.index@)), map.claim() == Some(s0.len() as usize),
@body 0
    proof { lemma_toks(s0); }
#raw
// what a map serializes to is what it is rebuilt from
proof fn round_trip<K: Ord, V, const N: usize>(m: BTreeMap<K, V, N>)
    requires mwf(m), lawful::<K>(),
    ensures m_ext(Seq::<(K, V)>::empty(), mels(m)) == mels(m),
{
    lemma_mwf(m);
    if mels(m).len() > 0 { let x = mels(m).last(); lemma_one_more(mels(m), x.0, x.1); }
    else { assert(mels(m) =~= Seq::<(K, V)>::empty()); lemma_sorted_empty(Seq::<(K, V)>::empty()); lemma_ext_sorted(Seq::<(K, V)>::empty(), mels(m)); assert(mels(m) + mels(m) =~= mels(m)); }
}
