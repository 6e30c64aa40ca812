//! Stack against a Vec
use crate::ch::{Ch, R};
use crate::{ck, ckeq, Test};
use lazy_clone_collections::Stack;
use std::cell::Cell;

type T = u32;

fn same(m: &Stack<T>, s: &[T]) -> R {
    ckeq!(m.len(), s.len(), "len");
    ckeq!(m.is_empty(), s.is_empty(), "is_empty");
    let got: Vec<T> = m.iter().cloned().collect();
    let want: Vec<T> = s.iter().rev().cloned().collect();
    ckeq!(got, want, "elements from the top");
    Ok(())
}

fn op(c: &mut Ch, m: &mut Stack<T>, s: &mut Vec<T>, ctr: &mut T) -> R {
    *ctr += 1;
    let v = *ctr;
    match c.to(14) {
        0 | 1 | 2 => {
            c.log(|| format!("push({v})"));
            m.push(v);
            s.push(v);
        }
        3 | 4 => {
            c.log(|| "pop".into());
            ckeq!(m.pop(), s.pop(), "pop");
        }
        5 => {
            c.log(|| "top/top_mut".into());
            ckeq!(m.top(), s.last(), "top");
            let (a, b) = (m.top_mut(), s.last_mut());
            ckeq!(a, b, "top_mut");
            if let (Some(a), Some(b)) = (a, b) {
                *a = v;
                *b = v;
            }
        }
        6 | 7 => {
            let at = c.to(s.len() as u32 + 2) as usize;
            c.log(|| format!("remove({at})"));
            if at >= s.len() {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.remove(at)));
                ck!(r.is_err(), "remove({at}) of {} elements did not panic", s.len());
            } else {
                ckeq!(m.remove(at), s.remove(at), "remove({at})");
            }
        }
        8 => {
            let n = s.len() as u32;
            let at = c.to(n + 2) as usize;
            c.log(|| format!("split_off({at})"));
            if at > s.len() {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.split_off(at)));
                ck!(r.is_err(), "split_off({at}) of {} elements did not panic", s.len());
            } else {
                let b = m.split_off(at);
                let t = s.split_off(at);
                same(&b, &t).map_err(|e| format!("split_off({at}) result: {e}"))?;
                if c.to(3) == 0 {
                    same(m, s).map_err(|e| format!("split_off({at}) remainder: {e}"))?;
                    *m = b;
                    *s = t;
                }
            }
        }
        9 => {
            c.log(|| "iter_mut".into());
            let n = if c.to(2) == 0 { s.len() } else { c.to(s.len() as u32 + 1) as usize };
            let mut it = m.iter_mut();
            for k in 0..n {
                let x = it.next();
                let y = s.iter_mut().rev().nth(k);
                ckeq!(x, y, "iter_mut item {k}");
                if let (Some(x), Some(y)) = (x, y) {
                    *x = v * 100 + k as u32;
                    *y = v * 100 + k as u32;
                }
            }
            if n == s.len() {
                ck!(it.next().is_none() && it.next().is_none(), "iter_mut: more items");
            }
        }
        10 => {
            c.log(|| "into_iter of a clone".into());
            let got: Vec<T> = m.clone().into_iter().collect();
            let want: Vec<T> = s.iter().rev().cloned().collect();
            ckeq!(got, want, "into_iter");
            let k = c.to(5) as usize;
            let mut it = m.clone().into_iter();
            for i in 0..k {
                ckeq!(it.next(), s.iter().rev().nth(i).cloned(), "into_iter item {i}");
            }
        }
        11 => {
            let x = c.to(*ctr + 1);
            c.log(|| format!("contains({x})"));
            ckeq!(m.contains(&x), s.contains(&x), "contains({x})");
        }
        12 => {
            let vs: Vec<T> = (0..c.to(6)).map(|i| v * 100 + i).collect();
            c.log(|| format!("extend / from {vs:?}"));
            match c.to(4) {
                0 => {
                    *m = Stack::from(vs.clone());
                    *s = vs;
                }
                1 => {
                    *m = vs.iter().cloned().collect();
                    *s = vs;
                }
                _ => {
                    m.extend(vs.clone());
                    s.extend(vs);
                }
            }
        }
        _ => {
            if c.odds(4) {
                c.log(|| "clear".into());
                m.clear();
                s.clear();
            }
        }
    }
    same(m, s)
}

fn pool(c: &mut Ch, iso: bool) -> R {
    let mut ms = vec![Stack::new(), Stack::new(), Stack::new()];
    let mut ss: Vec<Vec<T>> = vec![vec![], vec![], vec![]];
    let mut ctr = 0;
    for _ in 0..c.to(if iso { 12 } else { 6 }) {
        ctr += 1;
        ms[0].push(ctr);
        ss[0].push(ctr);
    }
    c.log(|| format!("s0 = {:?}", ss[0]));
    let long = if c.odds(4) { 60 } else { 10 };
    for _ in 0..1 + c.to(long) {
        let i = c.to(3) as usize;
        if c.to(3) == 0 {
            let j = c.to(3) as usize;
            c.log(|| format!("s{j} = s{i}.clone()"));
            ms[j] = ms[i].clone();
            ss[j] = ss[i].clone();
            continue;
        }
        c.log(|| format!("on s{i}:"));
        let r = op(c, &mut ms[i], &mut ss[i], &mut ctr);
        if let Err(e) = r {
            return if iso { Ok(()) } else { Err(e) };
        }
        if iso {
            for n in 0..3 {
                same(&ms[n], &ss[n]).map_err(|e| format!("s{n} changed although s{i} was the target: {e}"))?;
            }
        }
    }
    Ok(())
}

fn lone_go(c: &mut Ch, keep: bool) -> Option<R> {
    let mut ctr = 0;
    let (mut m, mut s) = (Stack::new(), vec![]);
    for _ in 0..c.to(9) {
        ctr += 1;
        m.push(ctr);
        s.push(ctr);
    }
    let steps = c.to(4);
    for i in 0..=steps {
        let kept = if keep && i == steps { Some((m.clone(), s.clone())) } else { None };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op(c, &mut m, &mut s, &mut ctr)))
            .unwrap_or_else(|e| Err(crate::panic_msg(e)))
            .and_then(|_| same(&m, &s));
        if i == steps {
            if let Some((k, t)) = kept {
                if let Err(e) = same(&k, &t) {
                    return Some(Err(format!("the clone changed: {e}")));
                }
            }
            return Some(r);
        }
        if r.is_err() {
            return None;
        }
    }
    None
}

/// a step on a stack that has a clone gives what it gives without one
fn lone(c: &mut Ch) -> R {
    let p0 = c.pos;
    if let Some(Err(e)) = lone_go(c, true) {
        c.pos = p0;
        c.log(|| "the same without a clone".into());
        if let Some(Ok(())) = lone_go(c, false) {
            return Err(format!("only while a clone is alive: {e}"));
        }
    }
    Ok(())
}

fn cmps(c: &mut Ch) -> R {
    let g = |c: &mut Ch| -> Vec<T> { (0..c.to(5)).map(|_| c.to(3)).collect() };
    let a = g(c);
    let b = if c.to(2) == 0 { let mut x = a.clone(); if !x.is_empty() { let i = c.to(x.len() as u32) as usize; x[i] = c.to(3); } if c.odds(3) { x.pop(); } x } else { g(c) };
    let (x, y) = (Stack::from(a.clone()), if c.to(2) == 0 || a != b { Stack::from(b.clone()) } else { Stack::from(a.clone()) });
    // a stack is compared from its top
    let (ra, rb): (Vec<T>, Vec<T>) = (a.iter().rev().cloned().collect(), b.iter().rev().cloned().collect());
    c.log(|| format!("compare (from the top) {ra:?} and {rb:?}"));
    c.log(|| "".into());
    ckeq!(x == y, ra == rb, "==");
    ckeq!(x != y, ra != rb, "!=");
    ckeq!(x.cmp(&y), ra.cmp(&rb), "cmp");
    ckeq!(x.partial_cmp(&y), ra.partial_cmp(&rb), "partial_cmp");
    ckeq!(x < y, ra < rb, "<");
    // partial orders
    let f = |c: &mut Ch| [0.0f64, 1.0, f64::NAN][c.to(3) as usize];
    let (p, q): (Vec<f64>, Vec<f64>) = ((0..c.to(4)).map(|_| f(c)).collect(), (0..c.to(4)).map(|_| f(c)).collect());
    let (x, y) = (Stack::from(p.clone()), Stack::from(q.clone()));
    let (rp, rq): (Vec<f64>, Vec<f64>) = (p.iter().rev().cloned().collect(), q.iter().rev().cloned().collect());
    c.log(|| format!("compare {rp:?} and {rq:?}"));
    ckeq!(x == y, rp == rq, "== of partially ordered elements");
    ckeq!(x.partial_cmp(&y), rp.partial_cmp(&rq), "partial_cmp of partially ordered elements");
    Ok(())
}

thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
struct Counted(u32);
impl Counted {
    fn new(v: u32) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Counted(v)
    }
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        Counted::new(self.0)
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

/// live elements = elements reachable from some stack
fn drops(c: &mut Ch) -> R {
    LIVE.with(|l| l.set(0));
    {
        let mut s: Stack<Counted> = Stack::new();
        let mut n = 0i64;
        for _ in 0..1 + c.to(20) {
            match c.to(4) {
                0 | 1 => {
                    s.push(Counted::new(1));
                    n += 1;
                }
                2 => {
                    if s.pop().is_some() {
                        n -= 1;
                    }
                }
                _ => {
                    if n > 0 {
                        let at = c.to(n as u32) as usize;
                        s.remove(at);
                        n -= 1;
                    }
                }
            }
            c.log(|| format!("{n} elements"));
            ckeq!(LIVE.with(|l| l.get()), n, "live elements");
        }
        let t = s.clone();
        ckeq!(LIVE.with(|l| l.get()), n, "live elements after clone");
        s.clear();
        ckeq!(LIVE.with(|l| l.get()), n, "live elements after clearing a shared stack");
        drop(t);
        ckeq!(LIVE.with(|l| l.get()), 0, "live elements after dropping all");
    }
    Ok(())
}

pub fn tests(prop: &str) -> Vec<Test> {
    match prop {
        "C11" => vec![("stack", |c| pool(c, false)), ("stack_drops", drops)],
        "C15" => vec![("stack_pool", |c| pool(c, true)), ("stack_lone", lone)],
        "C16" => vec![("stack_cmp", cmps)],
        _ => vec![],
    }
}
