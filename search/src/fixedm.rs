//! fixed::BTreeMap: model, iteration from both ends, element lifetimes
use crate::ch::{Ch, R};
use crate::{ck, ckeq, Test};
use lazy_clone_collections::btree::fixed::BTreeMap as Fixed;
use std::borrow::Borrow;
use std::cell::RefCell;
use std::collections::{BTreeMap as Std, HashSet};

#[derive(Default)]
struct Reg {
    live: HashSet<u32>,
    next: u32,
    bad: Option<String>,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}

/// an element whose lifetime is tracked; P pads it past the size of a word
pub struct Tr<const P: usize> {
    id: u32,
    k: i32,
    _pad: [u64; P],
}
impl<const P: usize> Tr<P> {
    fn new(k: i32) -> Self {
        let id = REG.with(|r| {
            let mut r = r.borrow_mut();
            r.next += 1;
            let n = r.next;
            r.live.insert(n);
            n
        });
        Tr { id, k, _pad: [0; P] }
    }
    fn chk(&self) {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            if !r.live.contains(&self.id) && r.bad.is_none() {
                r.bad = Some("an element was used after it was dropped".into());
            }
        })
    }
}
impl<const P: usize> Clone for Tr<P> {
    fn clone(&self) -> Self {
        self.chk();
        Tr::new(self.k)
    }
}
impl<const P: usize> Drop for Tr<P> {
    fn drop(&mut self) {
        let _ = REG.try_with(|r| {
            let mut r = r.borrow_mut();
            if !r.live.remove(&self.id) && r.bad.is_none() {
                r.bad = Some("an element was dropped twice (or was never created)".into());
            }
        });
    }
}
impl<const P: usize> Borrow<i32> for Tr<P> {
    fn borrow(&self) -> &i32 {
        self.chk();
        &self.k
    }
}
impl<const P: usize> PartialEq for Tr<P> {
    fn eq(&self, o: &Self) -> bool {
        self.chk();
        o.chk();
        self.k == o.k
    }
}
impl<const P: usize> Eq for Tr<P> {}
impl<const P: usize> PartialOrd for Tr<P> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<const P: usize> Ord for Tr<P> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.chk();
        o.chk();
        self.k.cmp(&o.k)
    }
}
impl<const P: usize> std::fmt::Debug for Tr<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.k)
    }
}

fn reset() {
    REG.with(|r| *r.borrow_mut() = Reg::default());
}
fn bad() -> R {
    match REG.with(|r| r.borrow().bad.clone()) {
        Some(m) => Err(m),
        None => Ok(()),
    }
}
fn live() -> usize {
    REG.with(|r| r.borrow().live.len())
}

type M<const P: usize> = Fixed<Tr<P>, Tr<0>>;
type S = Std<i32, i32>;

fn same<const P: usize>(m: &M<P>, s: &S, what: &str) -> R {
    let v: Vec<(i32, i32)> = m.iter().map(|(k, v)| { k.chk(); v.chk(); (k.k, v.k) }).collect();
    let w: Vec<(i32, i32)> = s.iter().map(|(k, v)| (*k, *v)).collect();
    ckeq!(v, w, "{what}: contents");
    ckeq!(m.len(), s.len(), "{what}: len()");
    ckeq!(m.is_empty(), s.is_empty(), "{what}: is_empty()");
    bad()
}

fn dual<A, B, T>(c: &mut Ch, what: &str, mut a: A, mut b: B) -> R
where
    A: DoubleEndedIterator<Item = T> + ExactSizeIterator,
    B: DoubleEndedIterator<Item = (i32, i32)> + ExactSizeIterator,
    T: Pair,
{
    let mode = c.to(4);
    let stop = if c.odds(4) { c.to(40) as usize } else { usize::MAX };
    let mut after = 0;
    for step in 0.. {
        if step >= stop {
            break;
        }
        ckeq!(a.size_hint(), (b.len(), Some(b.len())), "{what}: size_hint after {step} steps");
        ckeq!(a.len(), b.len(), "{what}: len() after {step} steps");
        let back = match mode {
            0 => false,
            1 => true,
            _ => c.to(2) == 1,
        };
        let (x, y) = if back { (a.next_back(), b.next_back()) } else { (a.next(), b.next()) };
        let x = x.map(|x| x.pair());
        ckeq!(x, y, "{what}: step {step} {}", if back { "next_back" } else { "next" });
        if y.is_none() {
            after += 1;
            if after > 2 {
                break;
            }
        }
    }
    Ok(())
}

trait Pair {
    fn pair(self) -> (i32, i32);
}
impl<'a, const P: usize> Pair for (&'a Tr<P>, &'a Tr<0>) {
    fn pair(self) -> (i32, i32) {
        self.0.chk();
        self.1.chk();
        (self.0.k, self.1.k)
    }
}
impl<const P: usize> Pair for (Tr<P>, Tr<0>) {
    fn pair(self) -> (i32, i32) {
        self.0.chk();
        self.1.chk();
        (self.0.k, self.1.k)
    }
}

fn hist<const P: usize>(c: &mut Ch) -> R {
    let r = hist_::<P>(c);
    // the drops performed by hist_ itself
    r?;
    bad()?;
    ckeq!(live(), 0, "elements still alive after every map is gone");
    Ok(())
}

fn hist_<const P: usize>(c: &mut Ch) -> R {
    reset();
    let u = [8, 20, 60, 150, 500][c.to(5) as usize];
    let mut pool: Vec<(M<P>, S)> = vec![(M::new(), S::new())];
    let mut nv = 0;
    let steps = 2 + c.to(14);
    for _ in 0..steps {
        let i = c.to(pool.len() as u32) as usize;
        let op = c.to(12);
        match op {
            0..=2 => {
                // a burst of inserts
                let n = 1 + c.to(if u > 100 { 200 } else { 40 });
                let dir = c.to(3);
                let start = c.to(u) as i32;
                c.log(|| format!("map {i}: {n} inserts, mode {dir}, from {start}"));
                for j in 0..n {
                    let k = match dir {
                        0 => c.to(u) as i32,
                        1 => start + j as i32,
                        _ => start - j as i32,
                    };
                    nv += 1;
                    let (m, s) = &mut pool[i];
                    let x = m.insert(Tr::new(k), Tr::new(nv));
                    let y = s.insert(k, nv);
                    ckeq!(x.map(|x| { x.chk(); x.k }), y, "insert({k})");
                }
                same(&pool[i].0, &pool[i].1, "after inserts")?;
            }
            3..=5 => {
                let n = 1 + c.to(60);
                let dir = c.to(3);
                let start = c.to(u) as i32;
                c.log(|| format!("map {i}: {n} removes, mode {dir}, from {start}"));
                for j in 0..n {
                    let k = match dir {
                        0 => c.to(u) as i32,
                        1 => start + j as i32,
                        _ => start - j as i32,
                    };
                    let (m, s) = &mut pool[i];
                    let k = if dir == 0 && !s.is_empty() && j % 2 == 0 {
                        *s.keys().nth(k as usize % s.len()).unwrap()
                    } else {
                        k
                    };
                    let x = m.remove(&k);
                    let y = s.remove(&k);
                    ckeq!(x.map(|x| { x.chk(); x.k }), y, "remove({k})");
                    ckeq!(m.len(), s.len(), "len() after remove({k})");
                }
                same(&pool[i].0, &pool[i].1, "after removes")?;
            }
            6 => {
                let k = c.to(u + 2) as i32 - 1;
                let (m, s) = &mut pool[i];
                ckeq!(m.get(&k).map(|v| { v.chk(); v.k }), s.get(&k).copied(), "get({k})");
                nv += 1;
                if let Some(v) = m.get_mut(&k) {
                    v.chk();
                    v.k = nv;
                }
                if let Some(v) = s.get_mut(&k) {
                    *v = nv;
                }
                c.log(|| format!("map {i}: get/get_mut({k})"));
                for k in -1..=u as i32 {
                    ckeq!(m.get(&k).map(|v| { v.chk(); v.k }), s.get(&k).copied(), "get({k})");
                }
            }
            7 => {
                if pool.len() < 4 {
                    c.log(|| format!("map {} = clone of map {i}", pool.len()));
                    let x = (pool[i].0.clone(), pool[i].1.clone());
                    pool.push(x);
                } else {
                    c.log(|| format!("drop map {i}"));
                    pool.remove(i);
                }
            }
            8 => {
                c.log(|| format!("map {i}: iter()"));
                let (m, s) = &pool[i];
                dual(c, "iter", m.iter(), s.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>().into_iter())?;
            }
            9 => {
                c.log(|| format!("map {i}: iter_mut()"));
                let (m, s) = &mut pool[i];
                {
                    let want: Vec<_> = s.iter().map(|(k, v)| (*k, *v)).collect();
                    let mut want = want.into_iter();
                    let mut it = m.iter_mut();
                    let mode = c.to(3);
                    let stop = if c.odds(4) { c.to(40) as usize } else { usize::MAX };
                    let mut step = 0;
                    let mut refs = vec![];
                    while step < stop {
                        ckeq!(it.len(), want.len(), "iter_mut: len()");
                        ckeq!(it.size_hint(), (want.len(), Some(want.len())), "iter_mut: size_hint()");
                        let back = mode == 1 || mode == 2 && c.to(2) == 1;
                        let (x, y) = if back { (it.next_back(), want.next_back()) } else { (it.next(), want.next()) };
                        match (x, y) {
                            (None, None) => break,
                            (Some((k, v)), Some((k2, v2))) => {
                                k.chk();
                                v.chk();
                                ckeq!((k.k, v.k), (k2, v2), "iter_mut step {step}");
                                nv += 1;
                                s.insert(k2, nv);
                                refs.push((v, nv));
                            }
                            (x, y) => return Err(format!("iter_mut step {step}: got {:?}, expected {y:?}", x.map(|x| x.0.k))),
                        }
                        step += 1;
                    }
                    // all the references stay usable together
                    for (v, n) in refs {
                        v.k = n;
                    }
                }
                same(&pool[i].0, &pool[i].1, "after iter_mut")?;
            }
            10 => {
                c.log(|| format!("map {i}: into_iter()"));
                let (m, s) = pool.swap_remove(i);
                let m = if c.to(2) == 1 {
                    // shared: keep a clone alive
                    let k = m.clone();
                    pool.push((k, s.clone()));
                    m
                } else {
                    m
                };
                dual(c, "into_iter", m.into_iter(), s.into_iter())?;
                if pool.is_empty() {
                    pool.push((M::new(), S::new()));
                }
            }
            _ => {
                c.log(|| format!("map {i}: clear/extend/collect"));
                match c.to(3) {
                    0 => {
                        pool[i].0.clear();
                        pool[i].1.clear();
                    }
                    x => {
                        let n = c.to(40);
                        let es: Vec<(i32, i32)> = (0..n).map(|_| { nv += 1; (c.to(u) as i32, nv) }).collect();
                        if x == 1 {
                            pool[i].0.extend(es.iter().map(|e| (Tr::new(e.0), Tr::new(e.1))));
                            pool[i].1.extend(es);
                        } else {
                            pool[i].0 = es.iter().map(|e| (Tr::new(e.0), Tr::new(e.1))).collect();
                            pool[i].1 = es.into_iter().collect();
                        }
                    }
                }
                same(&pool[i].0, &pool[i].1, "after clear/extend/collect")?;
            }
        }
        if pool.is_empty() {
            pool.push((M::new(), S::new()));
        }
        bad()?;
        if pool.len() == 1 {
            ckeq!(live(), 2 * pool[0].1.len(), "live elements with a single map (an element leaked or was lost)");
        }
        for (j, (m, s)) in pool.iter().enumerate() {
            if j != i || op == 7 {
                same(m, s, &format!("map {j} after an operation on map {i}"))?;
            }
        }
    }
    Ok(())
}

fn strings(c: &mut Ch) -> R {
    let mut m: Fixed<String, String> = Fixed::new();
    let mut s: Std<String, String> = Std::new();
    let n = 1 + c.to(120);
    for _ in 0..n {
        let k = format!("{:03}", c.to(60));
        match c.to(3) {
            0 | 1 => {
                c.log(|| format!("insert {k}"));
                ckeq!(m.insert(k.clone(), k.clone() + "v"), s.insert(k.clone(), k.clone() + "v"), "insert({k})");
            }
            _ => {
                c.log(|| format!("remove {k}"));
                ckeq!(m.remove(k.as_str()), s.remove(k.as_str()), "remove({k})");
            }
        }
        ckeq!(m.get(k.as_str()), s.get(k.as_str()), "get({k})");
    }
    let v: Vec<_> = m.into_iter().collect();
    let w: Vec<_> = s.into_iter().collect();
    ck!(v == w, "contents of a string map: got {v:?}, expected {w:?}");
    Ok(())
}

pub fn tests(prop: &str) -> Vec<Test> {
    match prop {
        "C14" => vec![("fixed_small", hist::<0>), ("fixed_big", hist::<3>), ("fixed_strings", strings)],
        _ => vec![],
    }
}
