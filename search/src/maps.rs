//! histories over a pool of maps, against std::collections::BTreeMap
use crate::ch::{Ch, R};
use crate::{ck, ckeq, Test};
use lazy_clone_collections::{AvlMap, Map};
use std::collections::BTreeMap as Std;
use std::ops::Bound;

pub type K = i32;
pub type V = u32;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F {
    Inv,
    Point,
    Bulk,
    Iter,
    Range,
    Iso,
    Cmp,
}
use F::*;

/// the last step must have an odd tail so that all universes occur
pub fn universe(c: &mut Ch) -> u32 {
    [3, 6, 12, 24, 40, 100, 400][c.to(7) as usize]
}

pub fn key(c: &mut Ch, u: u32) -> K {
    c.to(u) as K
}

pub fn bounds(c: &mut Ch, u: u32) -> (Bound<K>, Bound<K>) {
    let a = c.to(u + 2) as K - 1;
    let b = c.to(u + 2) as K - 1;
    let (a, b) = (a.min(b), a.max(b));
    let lo = match c.to(4) {
        0 | 1 => Bound::Included(a),
        2 => Bound::Excluded(a),
        _ => Bound::Unbounded,
    };
    let hi = match c.to(4) {
        0 | 1 => Bound::Excluded(b),
        2 => Bound::Included(b),
        _ => Bound::Unbounded,
    };
    if a == b {
        if let (Bound::Excluded(_), Bound::Excluded(_)) = (lo, hi) {
            return (Bound::Included(a), Bound::Excluded(b));
        }
    }
    (lo, hi)
}

/// drive two double-ended iterators in step
pub fn dual<A, B, T, U>(c: &mut Ch, what: &str, mut a: A, mut b: B, same: impl Fn(&T, &U) -> bool, exact: Option<usize>) -> R
where
    A: DoubleEndedIterator<Item = T>,
    B: DoubleEndedIterator<Item = U>,
    T: std::fmt::Debug,
    U: std::fmt::Debug,
{
    let mode = c.to(4);
    let stop = if c.odds(6) { c.to(8) as usize } else { usize::MAX };
    let mut left = exact;
    let mut after = 0;
    for step in 0.. {
        if step >= stop {
            break;
        }
        let (lo, hi) = a.size_hint();
        if let Some(n) = left {
            ck!(lo <= n && hi.map_or(true, |h| h >= n), "{what}: size_hint {:?} with {n} left", (lo, hi));
        }
        let back = match mode {
            0 => false,
            1 => true,
            _ => c.to(2) == 1,
        };
        let (x, y) = if back { (a.next_back(), b.next_back()) } else { (a.next(), b.next()) };
        let ok = match (&x, &y) {
            (None, None) => true,
            (Some(x), Some(y)) => same(x, y),
            _ => false,
        };
        ck!(ok, "{what}: step {step} {} got {x:?}, expected {y:?}", if back { "next_back" } else { "next" });
        if x.is_none() {
            after += 1;
            if after > 3 {
                break;
            }
        } else if let Some(n) = left.as_mut() {
            *n -= 1;
        }
    }
    Ok(())
}

pub fn exact<T>(c: &mut Ch, what: &str, mut a: impl DoubleEndedIterator<Item = T> + ExactSizeIterator, n: usize) -> R {
    let mut left = n;
    loop {
        ckeq!(a.len(), left, "{what}.len()");
        ckeq!(a.size_hint(), (left, Some(left)), "{what}.size_hint()");
        let x = if c.to(2) == 1 { a.next_back() } else { a.next() };
        match x {
            Some(_) => {
                ck!(left > 0, "{what}: too many items");
                left -= 1
            }
            None => break,
        }
    }
    ckeq!(left, 0, "{what}: items missing");
    ckeq!(a.len(), 0, "{what}.len() at the end");
    Ok(())
}

macro_rules! ext_ref {
    (avl, $m:expr, $v:expr) => {
        $m.extend($v.iter().map(|e| (&e.0, &e.1)))
    };
    ($x:tt, $m:expr, $v:expr) => {
        $m.extend($v.clone())
    };
}
macro_rules! history {
    ($mod:ident, $Map:ty, $avl:tt) => {
        pub mod $mod {
            use super::*;
            pub type M = $Map;

            fn same(m: &M, s: &Std<K, V>) -> R {
                ckeq!(m.len(), s.len(), "len");
                let mut n = 0;
                let mut it = m.iter();
                for (k, v) in s {
                    match it.next() {
                        Some((a, b)) => ck!(a == k && b == v, "entry {n}: got {:?}, expected {:?}", (a, b), (k, v)),
                        None => return Err(format!("entry {n}: got nothing, expected {:?}", (k, v))),
                    }
                    n += 1;
                }
                ck!(it.next().is_none(), "more entries than expected");
                Ok(())
            }
            fn same_by_get(m: &M, s: &Std<K, V>, u: u32) -> R {
                ckeq!(m.len(), s.len(), "len");
                ckeq!(m.is_empty(), s.is_empty(), "is_empty");
                for k in -1..=u as K {
                    ckeq!(m.get(&k), s.get(&k), "get({k})");
                }
                Ok(())
            }

            pub fn build(c: &mut Ch, u: u32, m: &mut M, s: &mut Std<K, V>, ctr: &mut V) {
                // a starting point whose size is uniform in 0..=u
                let n = c.to(u + 1);
                let style = c.to(4);
                let mut vs = vec![];
                for i in 0..n {
                    let k = match style {
                        0 => i as K,
                        1 => (n - 1 - i) as K,
                        _ => key(c, u),
                    };
                    *ctr += 1;
                    vs.push((k, *ctr));
                }
                c.log(|| format!("new map: insert in order {:?}", vs));
                for (k, v) in vs {
                    m.insert(k, v);
                    s.insert(k, v);
                }
            }

            fn point(c: &mut Ch, u: u32, m: &mut M, s: &mut Std<K, V>, v: V) -> R {
                let k = c.to(u + 2) as K - 1;
                match c.to(13) {
                    0 | 1 => {
                        c.log(|| format!("insert({k}, {v})"));
                        ckeq!(m.insert(k, v), s.insert(k, v), "insert({k})");
                    }
                    2 | 3 => {
                        c.log(|| format!("remove({k})"));
                        ckeq!(m.remove(&k), s.remove(&k), "remove({k})");
                    }
                    4 => {
                        c.log(|| format!("get({k})"));
                        ckeq!(m.get(&k), s.get(&k), "get({k})");
                        ckeq!(m.get_key_value(&k), s.get_key_value(&k), "get_key_value({k})");
                        ckeq!(m.contains_key(&k), s.contains_key(&k), "contains_key({k})");
                    }
                    5 => {
                        c.log(|| format!("get_mut({k}) = {v}"));
                        let (a, b) = (m.get_mut(&k), s.get_mut(&k));
                        ckeq!(a, b, "get_mut({k})");
                        if let (Some(a), Some(b)) = (a, b) {
                            *a = v;
                            *b = v;
                        }
                    }
                    6 => {
                        c.log(|| "first/last_key_value".into());
                        ckeq!(m.first_key_value(), s.first_key_value(), "first_key_value");
                        ckeq!(m.last_key_value(), s.last_key_value(), "last_key_value");
                    }
                    7 | 8 => {
                        c.log(|| "pop_first".into());
                        ckeq!(m.pop_first(), s.pop_first(), "pop_first");
                    }
                    9 | 10 => {
                        c.log(|| "pop_last".into());
                        ckeq!(m.pop_last(), s.pop_last(), "pop_last");
                    }
                    11 => {
                        if c.odds(4) {
                            c.log(|| "clear".into());
                            m.clear();
                            s.clear();
                        }
                        ckeq!(m.is_empty(), s.is_empty(), "is_empty");
                        ckeq!(m.len(), s.len(), "len");
                    }
                    _ => {
                        point_x!($avl, c, m, s, k)
                    }
                }
                Ok(())
            }

            fn bulk(c: &mut Ch, u: u32, ms: &mut [M], ss: &mut [Std<K, V>], i: usize, ctr: &mut V) -> R {
                let j = c.to(ms.len() as u32) as usize;
                match c.to(12) {
                    0 | 1 => {
                        if i == j {
                            return Ok(());
                        }
                        c.log(|| format!("m{i}.append(m{j})"));
                        let mut b = std::mem::take(&mut ms[j]);
                        let mut t = std::mem::take(&mut ss[j]);
                        ms[i].append(&mut b);
                        ss[i].append(&mut t);
                        ck!(b.is_empty() && b.len() == 0 && b.iter().next().is_none(), "append left elements in other");
                        ms[j] = b;
                        ss[j] = t;
                    }
                    2 | 3 => {
                        let k = c.to(u + 2) as K - 1;
                        c.log(|| format!("m{j} = m{i}.split_off({k})"));
                        let b = ms[i].split_off(&k);
                        let t = ss[i].split_off(&k);
                        same(&b, &t).map_err(|e| format!("split_off({k}) result: {e}"))?;
                        if i != j {
                            ms[j] = b;
                            ss[j] = t;
                        }
                    }
                    4 | 5 => {
                        let (d, r) = (c.to(4) as K + 1, c.to(4) as K);
                        let add = c.to(2);
                        c.log(|| format!("m{i}.retain(v += {add}; k % {d} < {r})"));
                        let mut seen = vec![];
                        ms[i].retain(|k, v| {
                            seen.push((*k, *v));
                            *v += add;
                            *k % d < r
                        });
                        let mut want: Vec<_> = ss[i].iter().map(|(k, v)| (*k, *v)).collect();
                        ss[i].retain(|k, v| {
                            *v += add;
                            *k % d < r
                        });
                        seen.sort();
                        want.sort();
                        ckeq!(seen, want, "retain visits");
                    }
                    6 => {
                        let n = c.to(6);
                        let vs: Vec<_> = (0..n)
                            .map(|_| {
                                *ctr += 1;
                                (key(c, u), *ctr)
                            })
                            .collect();
                        c.log(|| format!("m{i}.extend({vs:?})"));
                        if c.to(2) == 0 {
                            ms[i].extend(vs.clone());
                        } else {
                            ext_ref!($avl, ms[i], vs);
                        }
                        ss[i].extend(vs);
                    }
                    7 => {
                        let n = c.to(u + 1);
                        let vs: Vec<_> = (0..n)
                            .map(|_| {
                                *ctr += 1;
                                (key(c, u), *ctr)
                            })
                            .collect();
                        c.log(|| format!("m{i} = from_iter({vs:?})"));
                        ms[i] = M::from_iter(vs.clone());
                        ss[i] = Std::from_iter(vs);
                    }
                    8 => {
                        let a = [(key(c, u), 1), (key(c, u), 2), (key(c, u), 3), (key(c, u), 4)];
                        c.log(|| format!("m{i} = from({a:?})"));
                        ms[i] = M::from(a);
                        ss[i] = Std::from(a);
                    }
                    _ => {
                        bulk_x!($avl, c, ms, ss, i, j, u, ctr)
                    }
                }
                same(&ms[i], &ss[i])
            }

            fn iters(c: &mut Ch, m: &mut M, s: &mut Std<K, V>, ctr: &mut V) -> R {
                let n = s.len();
                match c.to(14) {
                    0 | 1 => {
                        c.log(|| "iter".into());
                        dual(c, "iter", m.iter(), s.iter(), |a, b| a == b, Some(n))?;
                        let (a, b) = (&*m, &*s);
                        dual(c, "&map into_iter", a.into_iter(), b.into_iter(), |a, b| a == b, Some(n))?;
                    }
                    2 | 3 => {
                        c.log(|| "into_iter of a clone (shared)".into());
                        dual(c, "into_iter", m.clone().into_iter(), s.clone().into_iter(), |a, b| a == b, Some(n))?;
                    }
                    4 => {
                        c.log(|| "into_iter (owned)".into());
                        let (a, b) = (std::mem::take(m), std::mem::take(s));
                        dual(c, "into_iter", a.into_iter(), b.into_iter(), |a, b| a == b, Some(n))?;
                    }
                    5 | 6 => {
                        c.log(|| "iter_mut".into());
                        let base = *ctr;
                        *ctr += 1000;
                        let w = std::cell::Cell::new(0);
                        {
                            let a = m.iter_mut().map(|(k, v)| {
                                let o = *v;
                                *v = base + w.get();
                                (*k, o)
                            });
                            let w2 = std::cell::Cell::new(0);
                            let b = s.iter_mut().map(|(k, v)| {
                                let o = *v;
                                *v = base + w2.get();
                                w2.set(w2.get() + 1);
                                (*k, o)
                            });
                            let a = a.map(|x| {
                                w.set(w.get() + 1);
                                x
                            });
                            dual(c, "iter_mut", a, b, |a, b| a == b, Some(n))?;
                        }
                        same(m, s).map_err(|e| format!("after writes through iter_mut: {e}"))?;
                    }
                    7 => {
                        c.log(|| "keys/values".into());
                        dual(c, "keys", m.keys(), s.keys(), |a, b| a == b, Some(n))?;
                        dual(c, "values", m.values(), s.values(), |a, b| a == b, Some(n))?;
                    }
                    8 => {
                        c.log(|| "into_keys/into_values of clones".into());
                        dual(c, "into_keys", m.clone().into_keys(), s.clone().into_keys(), |a, b| a == b, Some(n))?;
                        dual(c, "into_values", m.clone().into_values(), s.clone().into_values(), |a, b| a == b, Some(n))?;
                    }
                    9 => {
                        c.log(|| "into_keys/into_values, owned".into());
                        let (a, b) = (std::mem::take(m), std::mem::take(s));
                        if c.to(2) == 0 {
                            dual(c, "into_keys", a.into_keys(), b.into_keys(), |a, b| a == b, Some(n))?;
                        } else {
                            dual(c, "into_values", a.into_values(), b.into_values(), |a, b| a == b, Some(n))?;
                        }
                    }
                    10 => {
                        c.log(|| "values_mut".into());
                        let mut it = m.values_mut();
                        let mut jt = s.values_mut();
                        for q in 0..n {
                            let back = c.to(2) == 1;
                            let (a, b) = if back { (it.next_back(), jt.next_back()) } else { (it.next(), jt.next()) };
                            ckeq!(a, b, "values_mut");
                            *ctr += 1;
                            if let (Some(a), Some(b)) = (a, b) {
                                *a = *ctr;
                                *b = *ctr;
                            }
                            let _ = q;
                        }
                        ck!(it.next().is_none() && it.next_back().is_none(), "values_mut: more items");
                        drop(it);
                        same(m, s).map_err(|e| format!("after values_mut: {e}"))?;
                    }
                    11 => {
                        c.log(|| "exact sizes".into());
                        exact(c, "iter", m.iter(), n)?;
                        exact(c, "into_iter", m.clone().into_iter(), n)?;
                        exact(c, "iter_mut", m.iter_mut(), n)?;
                        exact(c, "keys", m.keys(), n)?;
                        exact(c, "values", m.values(), n)?;
                        exact(c, "into_keys", m.clone().into_keys(), n)?;
                        exact(c, "into_values", m.clone().into_values(), n)?;
                        exact(c, "values_mut", m.values_mut(), n)?;
                    }
                    12 => {
                        c.log(|| "collect / adaptors".into());
                        let a: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect();
                        let b: Vec<_> = s.iter().map(|(k, v)| (*k, *v)).collect();
                        ckeq!(a, b, "iter().collect()");
                        let a: Vec<_> = m.clone().into_iter().rev().collect();
                        let b: Vec<_> = s.clone().into_iter().rev().collect();
                        ckeq!(a, b, "into_iter().rev().collect()");
                        ckeq!(m.iter().count(), n, "iter().count()");
                        ckeq!(m.iter().last(), s.iter().last(), "iter().last()");
                        let q = c.to(6) as usize;
                        ckeq!(m.iter().nth(q), s.iter().nth(q), "iter().nth({q})");
                        ckeq!(m.iter().take(q).len(), s.iter().take(q).len(), "iter().take({q}).len()");
                    }
                    _ => {
                        iters_x!($avl, c, m, s, ctr)
                    }
                }
                Ok(())
            }

            fn ranges(c: &mut Ch, u: u32, m: &mut M, s: &mut Std<K, V>, ctr: &mut V) -> R {
                let b = bounds(c, u);
                match c.to(3) {
                    0 | 1 => {
                        c.log(|| format!("range({b:?})"));
                        let n = s.range(b).count();
                        dual(c, &format!("range({b:?})"), m.range(b), s.range(b), |a, b| a == b, Some(n))?;
                    }
                    _ => {
                        c.log(|| format!("range_mut({b:?})"));
                        let n = s.range(b).count();
                        let mut it = m.range_mut(b);
                        let mut jt = s.range_mut(b);
                        let stop = if c.odds(4) { c.to(4) as usize } else { n };
                        let mode = c.to(3);
                        for q in 0..n.min(stop) {
                            let (lo, hi) = it.size_hint();
                            ck!(lo <= n - q && hi.map_or(true, |h| h >= n - q), "range_mut({b:?}): size_hint {:?} with {} left", (lo, hi), n - q);
                            let back = mode == 1 || mode == 2 && c.to(2) == 1;
                            let (a, b2) = if back { (it.next_back(), jt.next_back()) } else { (it.next(), jt.next()) };
                            ckeq!(a, b2, "range_mut({b:?})");
                            *ctr += 1;
                            if let (Some(a), Some(b)) = (a, b2) {
                                *a.1 = *ctr;
                                *b.1 = *ctr;
                            }
                        }
                        if stop >= n {
                            ck!(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), "range_mut: more items");
                        }
                        drop(it);
                        same(m, s).map_err(|e| format!("after writes through range_mut: {e}"))?;
                    }
                }
                Ok(())
            }

            fn cmps(c: &mut Ch, ms: &[M], ss: &[Std<K, V>], i: usize) -> R {
                let j = c.to(ms.len() as u32) as usize;
                c.log(|| format!("compare m{i} with m{j}"));
                // nearly equal partners as well
                let mut m2 = ms[j].clone();
                let mut s2 = ss[j].clone();
                if c.to(2) == 1 {
                    m2 = ms[i].clone();
                    s2 = ss[i].clone();
                    if let Some(k) = s2.keys().nth(c.to(4) as usize).cloned() {
                        match c.to(3) {
                            0 => {
                                m2.remove(&k);
                                s2.remove(&k);
                            }
                            1 => {
                                m2.insert(k, 7);
                                s2.insert(k, 7);
                            }
                            _ => {
                                // same contents, other shape
                                m2 = M::from_iter(s2.iter().rev().map(|(k, v)| (*k, *v)));
                            }
                        }
                    }
                }
                let (a, b, s, t) = (&ms[i], &m2, &ss[i], &s2);
                c.log(|| format!("  {s:?} vs {t:?}"));
                ckeq!(a == b, s == t, "==");
                ckeq!(b == a, t == s, "==");
                ckeq!(a != b, s != t, "!=");
                ckeq!(a.cmp(b), s.cmp(t), "cmp");
                ckeq!(b.cmp(a), t.cmp(s), "cmp");
                ckeq!(a.partial_cmp(b), s.partial_cmp(t), "partial_cmp");
                ckeq!(a < b, s < t, "<");
                cmps_x!($avl, a, b);
                Ok(())
            }

            pub fn run(c: &mut Ch, focus: F) -> R {
                let u = universe(c);
                let mut ctr: V = 1;
                let mut ms = vec![M::new(), M::new(), M::new()];
                let mut ss = vec![Std::new(), Std::new(), Std::new()];
                let nb = 1 + c.to(3) as usize;
                for i in 0..nb {
                    build(c, u, &mut ms[i], &mut ss[i], &mut ctr);
                }
                let long = if c.odds(4) { 40 } else { 8 };
                let steps = 1 + c.to(long);
                for _ in 0..steps {
                    let i = c.to(3) as usize;
                    ctr += 1;
                    let v = ctr;
                    let fixed: Vec<Vec<(K, V)>> = ss.iter().map(|s| s.iter().map(|(k, v)| (*k, *v)).collect()).collect();
                    let what = if c.to(3) < 2 && focus != Inv && focus != Iso {
                        focus
                    } else {
                        [Point, Iso, Bulk, Point, Iter, Range][c.to(6) as usize]
                    };
                    let old = (ms.clone(), ss.clone());
                    if c.to(2) == 0 {
                        // otherwise every node is shared with `old`
                        drop(old);
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match what {
                        Point => point(c, u, &mut ms[i], &mut ss[i], v),
                        Bulk => bulk(c, u, &mut ms, &mut ss, i, &mut ctr),
                        Iter => iters(c, &mut ms[i], &mut ss[i], &mut ctr),
                        Range => ranges(c, u, &mut ms[i], &mut ss[i], &mut ctr),
                        Cmp => cmps(c, &ms, &ss, i),
                        Iso | Inv => {
                            let j = c.to(3) as usize;
                            c.log(|| format!("m{j} = m{i}.clone()"));
                            ms[j] = ms[i].clone();
                            ss[j] = ss[i].clone();
                            Ok(())
                        }
                    }))
                    .unwrap_or_else(|e| Err(crate::panic_msg(e)));
                    let r = match (what, r) {
                        (Point, Ok(())) if focus == Point => same_by_get(&ms[i], &ss[i], u).and_then(|_| same(&ms[i], &ss[i])),
                        (_, r) => r,
                    };
                    if let Err(e) = r {
                        return if what == focus { Err(e) } else { Ok(()) };
                    }
                    if focus == Inv {
                        for (n, m) in ms.iter().enumerate() {
                            if let Err(e) = m.check() {
                                return Err(format!("m{n}: invariant broken: {e}"));
                            }
                            ckeq!(m.len(), m.iter().count(), "m{n}: len() and the number of entries");
                            ck!(m.iter().zip(m.iter().skip(1)).all(|(a, b)| a.0 < b.0), "m{n}: keys are not ascending");
                        }
                    }
                    if focus == Iso {
                        // the maps this step did not write to hold what they held
                        for n in 0..3 {
                            if ss[n].iter().map(|(k, v)| (*k, *v)).eq(fixed[n].iter().cloned()) && n != i {
                                same(&ms[n], &ss[n]).map_err(|e| format!("m{n} changed although m{i} was the target: {e}"))?;
                            }
                        }
                    }
                    // a history that has diverged says nothing about the rest
                    for n in 0..3 {
                        if same(&ms[n], &ss[n]).is_err() {
                            return Ok(());
                        }
                    }
                }
                Ok(())
            }

            fn lone_go(c: &mut Ch, keep: bool) -> Option<R> {
                let u = universe(c);
                let mut ctr: V = 1;
                let mut m = vec![M::new()];
                let mut s = vec![Std::new()];
                build(c, u, &mut m[0], &mut s[0], &mut ctr);
                let steps = c.to(4);
                for i in 0..=steps {
                    ctr += 1;
                    let kept = if keep && i == steps { Some((m[0].clone(), s[0].clone())) } else { None };
                    let kind = c.to(6);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind {
                        0 | 1 => point(c, u, &mut m[0], &mut s[0], ctr),
                        2 => bulk(c, u, &mut m, &mut s, 0, &mut ctr),
                        3 | 4 => iters(c, &mut m[0], &mut s[0], &mut ctr),
                        _ => ranges(c, u, &mut m[0], &mut s[0], &mut ctr),
                    }))
                    .unwrap_or_else(|e| Err(crate::panic_msg(e)));
                    let r = r.and_then(|_| same(&m[0], &s[0]));
                    if i == steps {
                        if let Some((k, t)) = kept {
                            if let Err(e) = same(&k, &t) {
                                return Some(Err(format!("the clone changed: {e}")));
                            }
                        }
                        return Some(r);
                    }
                    if r.is_err() {
                        return None;
                    }
                }
                None
            }

            /// a step on a value that has a clone gives what it gives without one
            pub fn lone(c: &mut Ch) -> R {
                let p0 = c.pos;
                if let Some(Err(e)) = lone_go(c, true) {
                    c.pos = p0;
                    c.log(|| "the same without a clone".into());
                    if let Some(Ok(())) = lone_go(c, false) {
                        return Err(format!("only while a clone is alive: {e}"));
                    }
                }
                Ok(())
            }

            /// a clone and its original, both updated, step by step
            pub fn iso(c: &mut Ch) -> R {
                let u = universe(c);
                let mut ctr: V = 1;
                let mut m = M::new();
                let mut s = Std::new();
                build(c, u, &mut m, &mut s, &mut ctr);
                let snap_m = m.clone();
                let snap_s = s.clone();
                let (mut m2, mut s2) = (m.clone(), s.clone());
                for _ in 0..1 + c.to(10) {
                    ctr += 1;
                    let which = c.to(2) == 0;
                    let kind = c.to(5);
                    {
                        let (a, t) = if which { (&mut m, &mut s) } else { (&mut m2, &mut s2) };
                        c.log(|| format!("{} is the target of", if which { "original" } else { "clone" }));
                        let mut av = vec![std::mem::take(a)];
                        let mut tv = vec![std::mem::take(t)];
                        let _ = match kind {
                            0 | 1 => point(c, u, &mut av[0], &mut tv[0], ctr),
                            2 => bulk(c, u, &mut av, &mut tv, 0, &mut ctr),
                            3 => iters(c, &mut av[0], &mut tv[0], &mut ctr),
                            _ => ranges(c, u, &mut av[0], &mut tv[0], &mut ctr),
                        };
                        *a = av.pop().unwrap();
                        *t = tv.pop().unwrap();
                    }
                    same(&snap_m, &snap_s).map_err(|e| format!("a third clone, never written, changed: {e}"))?;
                    let (b, t) = if which { (&m2, &s2) } else { (&m, &s) };
                    same(b, t).map_err(|e| format!("the other clone changed: {e}"))?;
                    let (a, t) = if which { (&m, &s) } else { (&m2, &s2) };
                    if same(a, t).is_err() {
                        return Ok(());
                    }
                }
                Ok(())
            }
        }
    };
}

macro_rules! point_x {
    (avl, $c:ident, $m:ident, $s:ident, $k:ident) => {{
        $c.log(|| format!("remove_entry({})", $k));
        ckeq!($m.remove_entry(&$k), $s.remove_entry(&$k), "remove_entry({})", $k);
        if let Some(v) = $s.get(&$k) {
            ckeq!(&$m[&$k], v, "index {}", $k);
        }
    }};
    (bt, $c:ident, $m:ident, $s:ident, $k:ident) => {{
        $c.log(|| format!("remove({})", $k));
        ckeq!($m.remove(&$k), $s.remove(&$k), "remove({})", $k);
    }};
}
macro_rules! bulk_x {
    (avl, $c:ident, $ms:ident, $ss:ident, $i:ident, $j:ident, $u:ident, $ctr:ident) => {{
        let (i, j) = ($i, $j);
        let op = $c.to(5);
        $c.log(|| format!("m{i} = new_{}(m{i}, m{j})", ["union", "intersect", "diff", "sym_diff", "join"][op as usize]));
        let (a, b) = ($ms[i].clone(), $ms[j].clone());
        let (s, t) = ($ss[i].clone(), $ss[j].clone());
        if $c.to(2) == 0 {
            $ms[i] = M::new();
        }
        match op {
            0 => {
                $ms[i] = M::new_union(a, b);
                // the right-hand side's values take precedence
                let mut r = s.clone();
                r.extend(t.iter().map(|(k, v)| (*k, *v)));
                $ss[i] = r;
            }
            1 => {
                $ms[i] = M::new_intersect(a, b);
                $ss[i] = s.iter().filter(|(k, _)| t.contains_key(k)).map(|(k, v)| (*k, *v)).collect();
            }
            2 => {
                $ms[i] = M::new_diff(a, b);
                $ss[i] = s.iter().filter(|(k, _)| !t.contains_key(k)).map(|(k, v)| (*k, *v)).collect();
            }
            3 => {
                $ms[i] = M::new_sym_diff(a, b);
                $ss[i] = s
                    .iter()
                    .filter(|(k, _)| !t.contains_key(k))
                    .chain(t.iter().filter(|(k, _)| !s.contains_key(k)))
                    .map(|(k, v)| (*k, *v))
                    .collect();
            }
            _ => {
                let k = $c.to($u) as K;
                let (mut a, mut s) = (a, s);
                let b = a.split_off(&k);
                let t = s.split_off(&k);
                let (mut b, mut t) = (b, t);
                b.remove(&k);
                t.remove(&k);
                // uneven heights
                for q in 0..$c.to(12) as K {
                    b.remove(&q);
                    t.remove(&q);
                    let q = $u as K - q;
                    if $c.to(2) == 0 && q > k {
                        b.remove(&q);
                        t.remove(&q);
                    }
                }
                *$ctr += 1;
                $c.log(|| format!("  join of {s:?}, {k}, {t:?}"));
                $ms[i] = M::new_join(a, k, *$ctr, b);
                s.insert(k, *$ctr);
                s.append(&mut t);
                $ss[i] = s;
            }
        }
    }};
    (bt, $c:ident, $ms:ident, $ss:ident, $i:ident, $j:ident, $u:ident, $ctr:ident) => {{
        let k = $c.to($u) as K;
        *$ctr += 1;
        $ms[$i].extend([(k, *$ctr)]);
        $ss[$i].extend([(k, *$ctr)]);
    }};
}
macro_rules! iters_x {
    (avl, $c:ident, $m:ident, $s:ident, $ctr:ident) => {{
        $c.log(|| "for_each / for_each_mut".into());
        let mut a = vec![];
        $m.for_each(|(k, v)| a.push((*k, *v)));
        ckeq!(a, $s.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "for_each");
        let base = *$ctr;
        *$ctr += 1000;
        let mut w = base;
        $m.for_each_mut(|(_, v)| {
            *v = w;
            w += 1;
        });
        let mut w = base;
        $s.iter_mut().for_each(|(_, v)| {
            *v = w;
            w += 1;
        });
        same($m, $s).map_err(|e| format!("after for_each_mut: {e}"))?;
    }};
    (bt, $c:ident, $m:ident, $s:ident, $ctr:ident) => {{
        $c.log(|| "&mut map into_iter".into());
        let base = *$ctr;
        *$ctr += 1000;
        let mut w = base;
        for (_, v) in &mut *$m {
            *v = w;
            w += 1;
        }
        let mut w = base;
        for (_, v) in &mut *$s {
            *v = w;
            w += 1;
        }
        same($m, $s).map_err(|e| format!("after &mut into_iter: {e}"))?;
    }};
}
macro_rules! cmps_x {
    (avl, $a:ident, $b:ident) => {
        use std::hash::{Hash, Hasher};
        let h = |x: &M| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            x.hash(&mut h);
            h.finish()
        };
        ck!($a != $b || h($a) == h($b), "equal maps with different hashes");
    };
    (bt, $a:ident, $b:ident) => {};
}

history!(avl, AvlMap<K, V>, avl);
history!(bt1, lazy_clone_collections::btree::BTreeMap<K, V, 1>, bt);
history!(bt2, lazy_clone_collections::btree::BTreeMap<K, V, 2>, bt);
history!(bt3, lazy_clone_collections::btree::BTreeMap<K, V, 3>, bt);
history!(bt5, lazy_clone_collections::btree::BTreeMap<K, V, 5>, bt);

macro_rules! b_tests {
    ($f:ident) => {
        vec![
            ("btree1", |c| bt1::run(c, $f)),
            ("btree2", |c| bt2::run(c, $f)),
            ("btree3", |c| bt3::run(c, $f)),
            ("btree5", |c| bt5::run(c, $f)),
        ]
    };
}

pub fn tests(prop: &str) -> Vec<Test> {
    match prop {
        "C01" => vec![("avl", |c| avl::run(c, Inv))],
        "C02" => vec![("avl", |c| avl::run(c, Point))],
        "C03" => vec![("avl", |c| avl::run(c, Bulk))],
        "C04" => vec![("avl", |c| avl::run(c, Iter)), ("avl_range", |c| avl::run(c, Range))],
        "C05" => b_tests!(Inv),
        "C06" => b_tests!(Point),
        "C07" => b_tests!(Bulk),
        "C08" => {
            let mut v: Vec<Test> = b_tests!(Iter);
            v.extend::<Vec<Test>>(vec![
                ("btree1_range", |c| bt1::run(c, Range)),
                ("btree2_range", |c| bt2::run(c, Range)),
                ("btree3_range", |c| bt3::run(c, Range)),
                ("btree5_range", |c| bt5::run(c, Range)),
            ]);
            v
        }
        "C15" => vec![
            ("avl_pair", |c| avl::iso(c)),
            ("btree1_pair", |c| bt1::iso(c)),
            ("btree2_pair", |c| bt2::iso(c)),
            ("btree5_pair", |c| bt5::iso(c)),
            ("avl_lone", |c| avl::lone(c)),
            ("btree1_lone", |c| bt1::lone(c)),
            ("btree2_lone", |c| bt2::lone(c)),
            ("avl_pool", |c| avl::run(c, Iso)),
            ("btree1_pool", |c| bt1::run(c, Iso)),
            ("btree5_pool", |c| bt5::run(c, Iso)),
        ],
        "C16" => {
            let mut v: Vec<Test> = b_tests!(Cmp);
            v.push(("avl", |c| avl::run(c, Cmp)));
            v
        }
        _ => vec![],
    }
}
