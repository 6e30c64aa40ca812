//! AvlSet and BTreeSet against std::collections::BTreeSet
use crate::ch::{Ch, R};
use crate::maps::{bounds, dual, key, universe, K};
use crate::{ck, ckeq, Test};
use lazy_clone_collections::{AvlSet, Set};
use std::collections::BTreeSet as Std;

fn fwd<'a>(c: &mut Ch, what: &str, mut a: impl Iterator<Item = &'a K>, mut b: impl Iterator<Item = &'a K>, n: Option<usize>) -> R {
    let mut left = n;
    for step in 0.. {
        if let Some(n) = left {
            let (lo, hi) = a.size_hint();
            ck!(lo <= n && hi.map_or(true, |h| h >= n), "{what}: size_hint {:?} with {n} left", (lo, hi));
        }
        let (x, y) = (a.next(), b.next());
        ckeq!(x, y, "{what}: item {step}");
        if x.is_none() {
            break;
        }
        left = left.map(|n| n - 1);
    }
    ck!(a.next().is_none(), "{what}: an item after the end");
    ck!(a.next().is_none(), "{what}: an item after the end");
    let _ = c;
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
pub enum F {
    Own,   // everything but the lazy iterators and comparisons
    Lazy,  // union/intersection/difference/symmetric_difference iterators
    Cmp,
    Inv,
    Iso,
}
use F::*;

macro_rules! sets {
    ($mod:ident, $Set:ty, $kind:tt) => {
        pub mod $mod {
            use super::*;
            type S = $Set;

            fn same(m: &S, s: &Std<K>) -> R {
                ckeq!(m.len(), s.len(), "len");
                ckeq!(m.is_empty(), s.is_empty(), "is_empty");
                let mut it = m.iter();
                for (n, k) in s.iter().enumerate() {
                    ckeq!(it.next(), Some(k), "element {n}");
                }
                ck!(it.next().is_none(), "more elements than expected");
                Ok(())
            }

            fn one(c: &mut Ch, u: u32, m: &mut S, s: &mut Std<K>) -> R {
                let k = c.to(u + 2) as K - 1;
                match c.to(12) {
                    0 | 1 => {
                        c.log(|| format!("insert({k})"));
                        ckeq!(m.insert(k), s.insert(k), "insert({k})");
                    }
                    2 | 3 => {
                        c.log(|| format!("remove({k})"));
                        ckeq!(m.remove(&k), s.remove(&k), "remove({k})");
                    }
                    4 => {
                        c.log(|| format!("contains/get({k}) first/last"));
                        ckeq!(m.contains(&k), s.contains(&k), "contains({k})");
                        ckeq!(m.get(&k), s.get(&k), "get({k})");
                        ckeq!(m.first(), s.first(), "first");
                        ckeq!(m.last(), s.last(), "last");
                    }
                    5 => {
                        c.log(|| format!("take({k})"));
                        ckeq!(m.take(&k), s.take(&k), "take({k})");
                    }
                    6 => {
                        c.log(|| format!("replace({k})"));
                        ckeq!(m.replace(k), s.replace(k), "replace({k})");
                    }
                    7 => {
                        c.log(|| "pop_first".into());
                        ckeq!(m.pop_first(), s.pop_first(), "pop_first");
                    }
                    8 => {
                        c.log(|| "pop_last".into());
                        ckeq!(m.pop_last(), s.pop_last(), "pop_last");
                    }
                    9 => {
                        let b = bounds(c, u);
                        c.log(|| format!("range({b:?})"));
                        let n = s.range(b).count();
                        dual(c, &format!("range({b:?})"), m.range(b), s.range(b), |a, b| a == b, Some(n))?;
                    }
                    10 => {
                        c.log(|| "iter / into_iter".into());
                        let n = s.len();
                        fwd(c, "iter", m.iter(), s.iter(), Some(n))?;
                        ckeq!(m.iter().len(), n, "iter().len()");
                        ckeq!(m.clone().into_iter().len(), n, "into_iter().len()");
                        let (mut it, mut left) = (m.clone().into_iter(), n);
                        for x in s.iter() {
                            ckeq!(it.len(), left, "into_iter().len()");
                            ckeq!(it.size_hint(), (left, Some(left)), "into_iter().size_hint()");
                            ckeq!(it.next(), Some(*x), "into_iter");
                            left -= 1;
                        }
                        ck!(it.next().is_none(), "into_iter: more elements");
                        let q = c.to(5) as usize;
                        ckeq!(m.iter().take(q).len(), s.iter().take(q).len(), "iter().take({q}).len()");
                        de_x!($kind, c, m, s);
                    }
                    _ => {
                        if c.odds(4) {
                            c.log(|| "clear".into());
                            m.clear();
                            s.clear();
                        }
                    }
                }
                Ok(())
            }

            fn two(c: &mut Ch, u: u32, ms: &mut [S], ss: &mut [Std<K>], i: usize) -> R {
                let j = c.to(ms.len() as u32) as usize;
                match c.to(14) {
                    0 => {
                        if i == j {
                            return Ok(());
                        }
                        c.log(|| format!("s{i}.append(s{j})"));
                        let mut b = std::mem::take(&mut ms[j]);
                        let mut t = std::mem::take(&mut ss[j]);
                        ms[i].append(&mut b);
                        ss[i].append(&mut t);
                        ck!(b.is_empty() && b.len() == 0 && b.iter().next().is_none(), "append left elements in other");
                    }
                    1 => {
                        let k = c.to(u + 2) as K - 1;
                        c.log(|| format!("s{i}.split_off({k})"));
                        let b = ms[i].split_off(&k);
                        let t = ss[i].split_off(&k);
                        same(&b, &t).map_err(|e| format!("split_off({k}) result: {e}"))?;
                        if i != j {
                            ms[j] = b;
                            ss[j] = t;
                        }
                    }
                    2 => {
                        let (d, r) = (c.to(4) as K + 1, c.to(4) as K);
                        c.log(|| format!("s{i}.retain(k % {d} < {r})"));
                        let (mut seen, mut want) = (vec![], vec![]);
                        ms[i].retain(|k| {
                            seen.push(*k);
                            *k % d < r
                        });
                        ss[i].retain(|k| {
                            want.push(*k);
                            *k % d < r
                        });
                        seen.sort();
                        ckeq!(seen, want, "retain visits");
                    }
                    3 => {
                        let vs: Vec<K> = (0..c.to(u + 1)).map(|_| key(c, u)).collect();
                        c.log(|| format!("s{i} = from_iter / extend {vs:?}"));
                        match c.to(3) {
                            0 => {
                                ms[i] = S::from_iter(vs.clone());
                                ss[i] = Std::from_iter(vs);
                            }
                            1 => {
                                ms[i].extend(vs.clone());
                                ss[i].extend(vs);
                            }
                            _ => {
                                ms[i].extend(vs.iter());
                                ss[i].extend(vs.iter());
                            }
                        }
                    }
                    4 => {
                        let a = [key(c, u), key(c, u), key(c, u)];
                        c.log(|| format!("s{i} = from({a:?})"));
                        ms[i] = S::from(a);
                        ss[i] = Std::from(a);
                    }
                    q @ 5..=8 => {
                        let name = ["union", "intersection", "diff", "sym_diff"][q as usize - 5];
                        let owned = c.to(2) == 0;
                        c.log(|| format!("s{i} = new_{name}(s{i}, s{j})"));
                        let (a, b) = (ms[i].clone(), ms[j].clone());
                        if owned {
                            ms[i] = S::new();
                        }
                        let (s, t) = (ss[i].clone(), ss[j].clone());
                        ms[i] = match q {
                            5 => S::new_union(a, b),
                            6 => S::new_intersection(a, b),
                            7 => S::new_diff(a, b),
                            _ => S::new_sym_diff(a, b),
                        };
                        ss[i] = match q {
                            5 => &s | &t,
                            6 => &s & &t,
                            7 => &s - &t,
                            _ => &s ^ &t,
                        };
                    }
                    q @ 9..=10 => {
                        let _ = q;
                        let (a, b, s, t) = (&ms[i], &ms[j], &ss[i], &ss[j]);
                        c.log(|| format!("operators on s{i}, s{j}"));
                        same(&(a | b), &(s | t)).map_err(|e| format!("|: {e}"))?;
                        same(&(a & b), &(s & t)).map_err(|e| format!("&: {e}"))?;
                        same(&(a ^ b), &(s ^ t)).map_err(|e| format!("^: {e}"))?;
                        same(&(a - b), &(s - t)).map_err(|e| format!("-: {e}"))?;
                    }
                    _ => {
                        // relations, also between near relatives
                        let (mut a, mut s) = (ms[i].clone(), ss[i].clone());
                        if c.to(2) == 0 {
                            a = ms[j].clone();
                            s = ss[j].clone();
                            for _ in 0..c.to(3) {
                                let k = key(c, u);
                                if c.to(2) == 0 {
                                    a.remove(&k);
                                    s.remove(&k);
                                } else {
                                    a.insert(k);
                                    s.insert(k);
                                }
                            }
                        }
                        let (b, t) = (&ms[j], &ss[j]);
                        c.log(|| format!("relations {s:?} {t:?}"));
                        ckeq!(a.is_subset(b), s.is_subset(t), "is_subset of {s:?} and {t:?}");
                        ckeq!(b.is_subset(&a), t.is_subset(&s), "is_subset of {t:?} and {s:?}");
                        ckeq!(a.is_superset(b), s.is_superset(t), "is_superset of {s:?} and {t:?}");
                        ckeq!(b.is_superset(&a), t.is_superset(&s), "is_superset of {t:?} and {s:?}");
                        ckeq!(a.is_disjoint(b), s.is_disjoint(t), "is_disjoint of {s:?} and {t:?}");
                        ckeq!(b.is_disjoint(&a), t.is_disjoint(&s), "is_disjoint of {t:?} and {s:?}");
                    }
                }
                same(&ms[i], &ss[i])
            }

            fn lazy(c: &mut Ch, ms: &[S], ss: &[Std<K>], i: usize) -> R {
                let j = c.to(ms.len() as u32) as usize;
                let (a, b, s, t) = (&ms[i], &ms[j], &ss[i], &ss[j]);
                c.log(|| format!("lazy iterators over {s:?} and {t:?}"));
                fwd(c, "union", a.union(b), s.union(t), Some(s.union(t).count()))?;
                fwd(c, "intersection", a.intersection(b), s.intersection(t), Some(s.intersection(t).count()))?;
                fwd(c, "difference", a.difference(b), s.difference(t), Some(s.difference(t).count()))?;
                fwd(c, "symmetric_difference", a.symmetric_difference(b), s.symmetric_difference(t), Some(s.symmetric_difference(t).count()))
            }

            fn cmps(c: &mut Ch, ms: &[S], ss: &[Std<K>], i: usize, u: u32) -> R {
                let j = c.to(ms.len() as u32) as usize;
                let (mut a, mut s) = (ms[j].clone(), ss[j].clone());
                match c.to(3) {
                    0 => {
                        let k = key(c, u);
                        a.insert(k);
                        s.insert(k);
                    }
                    1 => {
                        let k = key(c, u);
                        a.remove(&k);
                        s.remove(&k);
                        a = S::from_iter(s.iter().rev().cloned());
                    }
                    _ => (),
                }
                let (b, t) = (&ms[i], &ss[i]);
                c.log(|| format!("compare {s:?} and {t:?}"));
                ckeq!(a == *b, s == *t, "==");
                ckeq!(a != *b, s != *t, "!=");
                ckeq!(a.cmp(b), s.cmp(t), "cmp");
                ckeq!(b.cmp(&a), t.cmp(&s), "cmp");
                ckeq!(a.partial_cmp(b), s.partial_cmp(t), "partial_cmp");
                use std::hash::{Hash, Hasher};
                let h = |x: &S| {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    x.hash(&mut h);
                    h.finish()
                };
                ck!(a != *b || h(&a) == h(b), "equal sets with different hashes");
                Ok(())
            }

            fn lone_go(c: &mut Ch, keep: bool) -> Option<R> {
                let u = universe(c);
                let mut ms = vec![S::new(), S::new()];
                let mut ss = vec![Std::new(), Std::new()];
                for i in 0..2 {
                    for _ in 0..c.to(u + 1) {
                        let v = key(c, u);
                        ms[i].insert(v);
                        ss[i].insert(v);
                    }
                }
                let steps = c.to(3);
                for i in 0..=steps {
                    let kept = if keep && i == steps { Some((ms.clone(), ss.clone())) } else { None };
                    let w = c.to(2);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match w {
                        0 => one(c, u, &mut ms[0], &mut ss[0]),
                        _ => two(c, u, &mut ms, &mut ss, 0),
                    }))
                    .unwrap_or_else(|e| Err(crate::panic_msg(e)))
                    .and_then(|_| same(&ms[0], &ss[0]));
                    if i == steps {
                        if let Some((k, t)) = kept {
                            if let Err(e) = same(&k[0], &t[0]).and_then(|_| same(&k[1], &t[1])) {
                                return Some(Err(format!("the clone changed: {e}")));
                            }
                        }
                        return Some(r);
                    }
                    if r.is_err() {
                        return None;
                    }
                }
                None
            }

            /// a step on a set that has a clone gives what it gives without one
            pub fn lone(c: &mut Ch) -> R {
                let p0 = c.pos;
                if let Some(Err(e)) = lone_go(c, true) {
                    c.pos = p0;
                    c.log(|| "the same without a clone".into());
                    if let Some(Ok(())) = lone_go(c, false) {
                        return Err(format!("only while a clone is alive: {e}"));
                    }
                }
                Ok(())
            }

            pub fn run(c: &mut Ch, focus: F) -> R {
                let u = universe(c);
                let mut ms = vec![S::new(), S::new(), S::new()];
                let mut ss = vec![Std::new(), Std::new(), Std::new()];
                for i in 0..3 {
                    let n = c.to(u + 1);
                    let vs: Vec<K> = if c.to(3) == 0 {
                        (0..n as K).collect()
                    } else {
                        (0..n).map(|_| key(c, u)).collect()
                    };
                    c.log(|| format!("s{i} = {vs:?}"));
                    for v in vs {
                        ms[i].insert(v);
                        ss[i].insert(v);
                    }
                }
                let long = if c.odds(4) { 40 } else { 8 };
                for _ in 0..1 + c.to(long) {
                    let i = c.to(3) as usize;
                    let fixed = ss.clone();
                    let old = ms.clone();
                    if c.to(2) == 0 {
                        drop(old);
                    }
                    let w = if c.to(3) == 0 { c.to(4) } else { match focus { Own => c.to(2), Lazy => 2, Cmp => 3, _ => c.to(2) } };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match w {
                        0 => one(c, u, &mut ms[i], &mut ss[i]),
                        1 => two(c, u, &mut ms, &mut ss, i),
                        2 => lazy(c, &ms, &ss, i),
                        _ => cmps(c, &ms, &ss, i, u),
                    }))
                    .unwrap_or_else(|e| Err(crate::panic_msg(e)));
                    let mine = match focus { Own => w < 2, Lazy => w == 2, Cmp => w == 3, _ => false };
                    let r = if w == 0 && mine { r.and_then(|_| same(&ms[i], &ss[i])) } else { r };
                    if let Err(e) = r {
                        return if mine { Err(e) } else { Ok(()) };
                    }
                    if focus == Inv {
                        for (n, m) in ms.iter().enumerate() {
                            if let Err(e) = m.check() {
                                return Err(format!("s{n}: invariant broken: {e}"));
                            }
                            ckeq!(m.len(), m.iter().count(), "s{n}: len() and the number of elements");
                            ck!(m.iter().zip(m.iter().skip(1)).all(|(a, b)| a < b), "s{n}: elements are not ascending");
                        }
                    }
                    if focus == Iso {
                        for n in 0..3 {
                            if ss[n] == fixed[n] && n != i {
                                same(&ms[n], &ss[n]).map_err(|e| format!("s{n} changed although s{i} was the target: {e}"))?;
                            }
                        }
                    }
                    if c.odds(4) {
                        let j = c.to(3) as usize;
                        c.log(|| format!("s{j} = s{i}.clone()"));
                        ms[j] = ms[i].clone();
                        ss[j] = ss[i].clone();
                    }
                    for n in 0..3 {
                        if same(&ms[n], &ss[n]).is_err() {
                            return Ok(());
                        }
                    }
                }
                Ok(())
            }
        }
    };
}

macro_rules! de_x {
    (avl, $c:ident, $m:ident, $s:ident) => {};
    (bt, $c:ident, $m:ident, $s:ident) => {
        dual($c, "iter", $m.iter(), $s.iter(), |a, b| a == b, Some($s.len()))?;
        dual($c, "into_iter", $m.clone().into_iter(), $s.clone().into_iter(), |a, b| a == b, Some($s.len()))?;
    };
}

sets!(avl, AvlSet<K>, avl);
sets!(bt1, lazy_clone_collections::btree::btree_set::BTreeSet<K, 1>, bt);
sets!(bt2, lazy_clone_collections::btree::btree_set::BTreeSet<K, 2>, bt);
sets!(bt5, lazy_clone_collections::btree::btree_set::BTreeSet<K, 5>, bt);

macro_rules! all {
    ($f:ident) => {
        vec![
            ("avl_set", |c| avl::run(c, $f)),
            ("btree_set1", |c| bt1::run(c, $f)),
            ("btree_set2", |c| bt2::run(c, $f)),
            ("btree_set5", |c| bt5::run(c, $f)),
        ]
    };
}

pub fn tests(prop: &str) -> Vec<Test> {
    match prop {
        "C01" => vec![("avl_set", |c| avl::run(c, Inv))],
        "C05" => vec![("btree_set1", |c| bt1::run(c, Inv)), ("btree_set5", |c| bt5::run(c, Inv))],
        "C09" => all!(Own),
        "C10" => all!(Lazy),
        "C15" => {
            let mut v: Vec<Test> = all!(Iso);
            v.push(("avl_set_lone", |c| avl::lone(c)));
            v.push(("btree_set1_lone", |c| bt1::lone(c)));
            v.push(("btree_set2_lone", |c| bt2::lone(c)));
            v
        }
        "C16" => all!(Cmp),
        _ => vec![],
    }
}
