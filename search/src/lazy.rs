//! C17: cloning is lazy (clones counted); C18: no deep recursion in Stack
use crate::ch::{Ch, R};
use crate::{ck, ckeq, Test};
use lazy_clone_collections::btree::{btree_set::BTreeSet, BTreeMap};
use lazy_clone_collections::{AvlMap, AvlSet, Stack};
use std::cell::Cell;

thread_local! { static CLONES: Cell<usize> = const { Cell::new(0) }; }

/// counts its own clones
#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
struct E(u32);
impl Clone for E {
    fn clone(&self) -> Self {
        CLONES.with(|c| c.set(c.get() + 1));
        E(self.0)
    }
}

fn cost<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let a = CLONES.with(|c| c.get());
    let r = f();
    (r, CLONES.with(|c| c.get()) - a)
}

/// the greatest height of an AVL tree of n nodes
fn avl_ht(n: usize) -> usize {
    let (mut h, mut a, mut b) = (0, 0, 1); // a: least size of height h, b: of h + 1
    while b <= n {
        (a, b) = (b, a + b + 1);
        h += 1;
    }
    h
}

/// the greatest number of levels of a B-tree of n entries, minimum occupancy N
fn bt_ht(n: usize, min: usize) -> usize {
    let (mut h, mut least) = (1, 1 + 2 * min); // least: the fewest entries of h + 1 levels
    let mut nodes = 2;
    while least <= n {
        h += 1;
        nodes *= min + 1;
        least += nodes * min;
    }
    h
}

macro_rules! avl_ops {
    ($f:ident, $ty:ty, $name:expr, $clones_per:expr, $mk:expr, $ins:expr, $ops:expr) => {
        fn $f(c: &mut Ch) -> R {
            let n = c.to(80) as usize;
            let span = 1 + c.to(120);
            let mut m: $ty = <$ty>::new();
            let mut kept: Option<$ty> = None;
            for _ in 0..n {
                ($ins)(&mut m, c.to(span));
            }
            for _ in 0..1 + c.to(12) {
                let k = c.to(span + 1);
                let len = m.len().max(1);
                if c.odds(3) {
                    let (x, d) = cost(|| m.clone());
                    c.log(|| "clone".into());
                    ckeq!(d, 0, "elements cloned by {}::clone", $name);
                    kept = Some(x);
                }
                if c.odds(5) {
                    kept = None;
                    // a fresh, unshared copy
                    let mut u = <$ty>::new();
                    for e in m.iter() {
                        ($mk)(&mut u, e);
                    }
                    m = u;
                }
                let shared = kept.is_some();
                let (what, d, bound) = ($ops)(c, &mut m, k, len);
                c.log(|| format!("{what} of {k} with {len} entries, shared: {shared}"));
                if shared {
                    ck!(d <= bound * $clones_per, "{} on a shared {} of {len} entries cloned {d} elements, more than {}", what, $name, bound * $clones_per);
                } else {
                    ckeq!(d, 0, "elements cloned by {} on an unshared {}", what, $name);
                }
            }
            Ok(())
        }
    };
}

avl_ops!(avl_map, AvlMap<E, E>, "AvlMap", 2,
    |u: &mut AvlMap<E, E>, e: (&E, &E)| { u.insert(E(e.0.0), E(e.1.0)); },
    |m: &mut AvlMap<E, E>, k| { m.insert(E(k), E(k)); },
    |c: &mut Ch, m: &mut AvlMap<E, E>, k: u32, len: usize| {
        let h = avl_ht(len);
        match c.to(6) {
            0 => ("insert", cost(|| m.insert(E(k), E(k))).1, h + 3),
            1 => ("get_mut", cost(|| m.get_mut(&E(k)).is_some()).1, h),
            2 => ("remove", cost(|| m.remove(&E(k))).1, 4 * h),
            3 => ("remove_entry", cost(|| m.remove_entry(&E(k))).1, 4 * h),
            4 => ("pop_first", cost(|| m.pop_first()).1, 4 * h),
            _ => ("pop_last", cost(|| m.pop_last()).1, 4 * h),
        }
    });
avl_ops!(avl_set, AvlSet<E>, "AvlSet", 1,
    |u: &mut AvlSet<E>, e: &E| { u.insert(E(e.0)); },
    |m: &mut AvlSet<E>, k| { m.insert(E(k)); },
    |c: &mut Ch, m: &mut AvlSet<E>, k: u32, len: usize| {
        let h = avl_ht(len);
        match c.to(6) {
            0 => ("insert", cost(|| m.insert(E(k))).1, h + 3),
            1 => ("replace", cost(|| m.replace(E(k))).1, 5 * h + 3),
            2 => ("remove", cost(|| m.remove(&E(k))).1, 4 * h),
            3 => ("take", cost(|| m.take(&E(k))).1, 4 * h),
            4 => ("pop_first", cost(|| m.pop_first()).1, 4 * h),
            _ => ("pop_last", cost(|| m.pop_last()).1, 4 * h),
        }
    });

macro_rules! bt {
    ($f:ident, $g:ident, $n:expr) => {
        avl_ops!($f, BTreeMap<E, E, $n>, "BTreeMap", 2 * (2 * $n + 1),
            |u: &mut BTreeMap<E, E, $n>, e: (&E, &E)| { u.insert(E(e.0.0), E(e.1.0)); },
            |m: &mut BTreeMap<E, E, $n>, k| { m.insert(E(k), E(k)); },
            |c: &mut Ch, m: &mut BTreeMap<E, E, $n>, k: u32, len: usize| {
                let h = bt_ht(len, $n);
                match c.to(5) {
                    0 => ("insert", cost(|| m.insert(E(k), E(k))).1, h),
                    1 => ("get_mut", cost(|| m.get_mut(&E(k)).is_some()).1, h),
                    2 => ("remove", cost(|| m.remove(&E(k))).1, 3 * h),
                    3 => ("pop_first", cost(|| m.pop_first()).1, 3 * h),
                    _ => ("pop_last", cost(|| m.pop_last()).1, 3 * h),
                }
            });
        avl_ops!($g, BTreeSet<E, $n>, "BTreeSet", 2 * $n + 1,
            |u: &mut BTreeSet<E, $n>, e: &E| { u.insert(E(e.0)); },
            |m: &mut BTreeSet<E, $n>, k| { m.insert(E(k)); },
            |c: &mut Ch, m: &mut BTreeSet<E, $n>, k: u32, len: usize| {
                let h = bt_ht(len, $n);
                match c.to(6) {
                    0 => ("insert", cost(|| m.insert(E(k))).1, h),
                    1 => ("replace", cost(|| m.replace(E(k))).1, 4 * h),
                    2 => ("remove", cost(|| m.remove(&E(k))).1, 3 * h),
                    3 => ("take", cost(|| m.take(&E(k))).1, 3 * h),
                    4 => ("pop_first", cost(|| m.pop_first()).1, 3 * h),
                    _ => ("pop_last", cost(|| m.pop_last()).1, 3 * h),
                }
            });
    };
}
bt!(bt_map1, bt_set1, 1);
bt!(bt_map2, bt_set2, 2);
bt!(bt_map5, bt_set5, 5);

/// bulk operations on unshared AVL collections
fn avl_bulk(c: &mut Ch) -> R {
    let span = 1 + c.to(60);
    let mut mk = |c: &mut Ch| {
        let mut m: AvlMap<E, E> = AvlMap::new();
        for _ in 0..c.to(40) {
            let k = c.to(span);
            m.insert(E(k), E(k));
        }
        m
    };
    let (mut a, mut b) = (mk(c), mk(c));
    let k = c.to(span + 1);
    let (what, d) = match c.to(7) {
        0 => ("append", cost(|| a.append(&mut b)).1),
        1 => ("new_union", cost(|| AvlMap::new_union(a, b)).1),
        2 => ("new_intersect", cost(|| AvlMap::new_intersect(a, b)).1),
        3 => ("new_diff", cost(|| AvlMap::new_diff(a, b)).1),
        4 => ("new_sym_diff", cost(|| AvlMap::new_sym_diff(a, b)).1),
        5 => ("split_off", cost(|| a.split_off(&E(k))).1),
        _ => {
            let mut r = a.split_off(&E(k));
            r.remove(&E(k));
            ("split_off and new_join", cost(|| AvlMap::new_join(a, E(k), E(k), r)).1)
        }
    };
    c.log(|| format!("AvlMap {what}"));
    ckeq!(d, 0, "elements cloned by AvlMap {what} on unshared maps");
    let mut mk = |c: &mut Ch| {
        let mut m: AvlSet<E> = AvlSet::new();
        for _ in 0..c.to(40) {
            m.insert(E(c.to(span)));
        }
        m
    };
    let (mut a, mut b) = (mk(c), mk(c));
    let (what, d) = match c.to(6) {
        0 => ("append", cost(|| a.append(&mut b)).1),
        1 => ("new_union", cost(|| AvlSet::new_union(a, b)).1),
        2 => ("new_intersection", cost(|| AvlSet::new_intersection(a, b)).1),
        3 => ("new_diff", cost(|| AvlSet::new_diff(a, b)).1),
        4 => ("new_sym_diff", cost(|| AvlSet::new_sym_diff(a, b)).1),
        _ => ("split_off", cost(|| a.split_off(&E(k))).1),
    };
    c.log(|| format!("AvlSet {what}"));
    ckeq!(d, 0, "elements cloned by AvlSet {what} on unshared sets");
    Ok(())
}

fn stack(c: &mut Ch) -> R {
    let mut s: Stack<E> = Stack::new();
    let mut kept: Vec<Stack<E>> = vec![];
    for i in 0..c.to(30) {
        s.push(E(i));
    }
    for _ in 0..1 + c.to(15) {
        let len = s.len();
        if c.odds(3) {
            let (t, d) = cost(|| s.clone());
            c.log(|| "clone".into());
            ckeq!(d, 0, "elements cloned by Stack::clone");
            kept.push(t);
        }
        if c.odds(5) {
            kept.clear();
        }
        let shared = !kept.is_empty();
        let (what, d, bound) = match c.to(6) {
            0 => ("push", cost(|| s.push(E(77))).1, 0),
            1 => ("pop", cost(|| s.pop()).1, 1),
            2 => ("top_mut", cost(|| s.top_mut().map(|x| x.0 += 1)).1, 1),
            3 if len > 0 => {
                let at = c.to(len as u32) as usize;
                ("remove", cost(|| s.remove(at)).1, len - at)
            }
            4 => {
                let at = c.to(len as u32 + 1) as usize;
                let (t, d) = cost(|| s.split_off(at));
                if c.odds(2) {
                    s = t;
                }
                ("split_off", d, if at == 0 { 0 } else { len - at })
            }
            _ => ("top, len, iter", cost(|| (s.top().is_some(), s.len(), s.iter().count())).1, 0),
        };
        c.log(|| format!("{what} with {len} elements, shared: {shared}"));
        if shared {
            ck!(d <= bound, "{what} on a shared Stack of {len} elements cloned {d} elements, more than {bound}");
        } else {
            ckeq!(d, 0, "elements cloned by {what} on an unshared Stack");
        }
    }
    Ok(())
}

const DEEP: usize = 120_000;

/// a long stack on a thread with a small call stack: deep recursion kills the
/// process, which the runner reports
fn deep(c: &mut Ch) -> R {
    let what = c.to(14);
    let n = DEEP + c.to(1000) as usize;
    let k = c.to(n as u32) as usize;
    c.log(|| format!("stack of {n} elements: operation {what} ({k})"));
    c.log(|| ["drop", "clear", "clone, drop both", "==", "partial_cmp, cmp", "iter", "into_iter, abandoned", "iter_mut", "split_off", "remove",
              "collect and extend", "pop all", "debug", "clear a half-shared stack"][what as usize].into());
    let f = move || -> R {
        let mut s: Stack<u32> = (0..n as u32).collect();
        match what {
            0 => drop(s),
            1 => {
                s.clear();
                ckeq!(s.len(), 0, "len after clear");
            }
            2 => {
                let t = s.clone();
                drop(s);
                ckeq!(t.len(), n, "len");
                drop(t);
            }
            3 => {
                let t: Stack<u32> = (0..n as u32).collect();
                ck!(s == t, "equal stacks differ");
            }
            4 => {
                let t: Stack<u32> = (0..n as u32).collect();
                ck!(s.partial_cmp(&t) == Some(std::cmp::Ordering::Equal), "partial_cmp");
                ck!(s.cmp(&t) == std::cmp::Ordering::Equal, "cmp");
            }
            5 => {
                ckeq!(s.iter().count(), n, "iter count");
                ck!(!s.contains(&u32::MAX), "contains");
            }
            6 => {
                let mut i = s.into_iter();
                for _ in 0..k % 10 {
                    i.next();
                }
            }
            7 => {
                let t = s.clone();
                for x in s.iter_mut() {
                    *x += 1;
                }
                drop(t);
            }
            8 => {
                let t = s.split_off(k);
                ckeq!((s.len(), t.len()), (k, n - k), "lengths after split_off({k})");
            }
            9 => {
                let t = s.clone();
                ckeq!(s.remove(k) as usize, k, "remove({k})");
                drop(s);
                drop(t);
            }
            10 => {
                s.extend(0..1000);
                ckeq!(s.len(), n + 1000, "len after extend");
            }
            11 => while s.pop().is_some() {},
            12 => {
                ck!(format!("{s:?}").len() > n, "debug");
            }
            _ => {
                let mut t = s.clone();
                for i in 0..n {
                    t.push(i as u32);
                }
                t.clear();
                ckeq!(s.len(), n, "len of the clone");
                drop(s);
            }
        }
        Ok(())
    };
    std::thread::Builder::new().stack_size(192 << 10).spawn(f).unwrap().join().unwrap_or(Err("panicked".into()))
}

pub fn tests(prop: &str) -> Vec<Test> {
    match prop {
        "C17" => vec![
            ("lazy_avl_map", avl_map), ("lazy_avl_set", avl_set), ("lazy_avl_bulk", avl_bulk),
            ("lazy_btree_map1", bt_map1), ("lazy_btree_map2", bt_map2), ("lazy_btree_map5", bt_map5),
            ("lazy_btree_set1", bt_set1), ("lazy_btree_set2", bt_set2), ("lazy_btree_set5", bt_set5),
            ("lazy_stack", stack),
        ],
        "C18" => vec![("deep_stack", deep)],
        _ => vec![],
    }
}
