//! the Entry API against std's
use crate::ch::{Ch, R};
use crate::{ckeq, Test};
use lazy_clone_collections::{AvlMap, Map};
use std::collections::BTreeMap as Std;

macro_rules! entry_hist {
    ($name:ident, $Map:ty) => {
        fn $name(c: &mut Ch) -> R {
            let u = [3, 8, 20, 60][c.to(4) as usize];
            let n0 = c.to(2 * u);
            let mut m: $Map = Default::default();
            let mut s: Std<i32, u32> = Default::default();
            let mut nv = 0u32;
            for _ in 0..n0 {
                let k = c.to(u) as i32;
                nv += 1;
                m.insert(k, nv);
                s.insert(k, nv);
            }
            c.log(|| format!("start: {s:?}"));
            let keep = (m.clone(), s.clone());
            let steps = 1 + c.to(12);
            for _ in 0..steps {
                nv += 1;
                let k = c.to(u + 2) as i32 - 1;
                let op = c.to(9);
                c.log(|| format!("entry op {op} key {k} val {nv}"));
                match op {
                    0 => {
                        let a = m.entry(k).or_insert(nv);
                        let b = s.entry(k).or_insert(nv);
                        ckeq!(*a, *b, "entry({k}).or_insert({nv})");
                        *a = nv + 1000;
                        *b = nv + 1000;
                    }
                    1 => {
                        let mut calls = (0, 0);
                        let a = *m.entry(k).or_insert_with(|| { calls.0 += 1; nv });
                        let b = *s.entry(k).or_insert_with(|| { calls.1 += 1; nv });
                        ckeq!(a, b, "entry({k}).or_insert_with");
                        ckeq!(calls.0, calls.1, "entry({k}).or_insert_with: number of calls of the closure");
                    }
                    2 => {
                        let mut calls = (0, 0);
                        let a = *m.entry(k).or_insert_with_key(|k| { calls.0 += 1; (*k as u32).wrapping_add(nv) });
                        let b = *s.entry(k).or_insert_with_key(|k| { calls.1 += 1; (*k as u32).wrapping_add(nv) });
                        ckeq!(a, b, "entry({k}).or_insert_with_key");
                        ckeq!(calls.0, calls.1, "entry({k}).or_insert_with_key: number of calls of the closure");
                    }
                    3 => {
                        let a = m.entry(k).or_default();
                        let b = s.entry(k).or_default();
                        ckeq!(*a, *b, "entry({k}).or_default()");
                        *a += 5;
                        *b += 5;
                    }
                    4 => {
                        let a = *m.entry(k).and_modify(|v| *v += 7).or_insert(nv);
                        let b = *s.entry(k).and_modify(|v| *v += 7).or_insert(nv);
                        ckeq!(a, b, "entry({k}).and_modify(+7).or_insert({nv})");
                    }
                    5 => {
                        // and_modify alone must not add anything
                        let _ = m.entry(k).and_modify(|v| *v += 1).and_modify(|v| *v *= 2);
                        let _ = s.entry(k).and_modify(|v| *v += 1).and_modify(|v| *v *= 2);
                    }
                    6 => {
                        let e = *m.entry(k).key();
                        ckeq!(e, k, "entry({k}).key()");
                    }
                    7 => {
                        let a = m.first_entry().map(|e| *e.key());
                        ckeq!(a, s.keys().next().copied(), "first_entry().key()");
                        if let Some(e) = m.first_entry() {
                            let _ = e.and_modify(|v| *v += 3);
                        }
                        if let Some(mut e) = s.first_entry() {
                            *e.get_mut() += 3;
                        }
                    }
                    _ => {
                        let a = m.last_entry().map(|e| *e.key());
                        ckeq!(a, s.keys().next_back().copied(), "last_entry().key()");
                        if let Some(e) = m.last_entry() {
                            *e.or_insert(0) += 3;
                        }
                        if let Some(mut e) = s.last_entry() {
                            *e.get_mut() += 3;
                        }
                    }
                }
                ckeq!(m.len(), s.len(), "len() after entry op on {k}");
                let v: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect();
                let w: Vec<_> = s.iter().map(|(k, v)| (*k, *v)).collect();
                ckeq!(v, w, "contents after entry op on {k}");
                if let Err(e) = m.check() {
                    return Err(format!("invariant after entry op on {k}: {e}"));
                }
            }
            let v: Vec<_> = keep.0.iter().map(|(k, v)| (*k, *v)).collect();
            let w: Vec<_> = keep.1.iter().map(|(k, v)| (*k, *v)).collect();
            ckeq!(v, w, "clone taken before the entry operations");
            Ok(())
        }
    };
}

entry_hist!(avl, AvlMap<i32, u32>);
entry_hist!(b1, lazy_clone_collections::btree::BTreeMap<i32, u32, 1>);
entry_hist!(b2, lazy_clone_collections::btree::BTreeMap<i32, u32, 2>);
entry_hist!(b5, lazy_clone_collections::BTreeMap<i32, u32>);

pub fn tests(prop: &str) -> Vec<Test> {
    match prop {
        "C12" => vec![("entry_avl", avl), ("entry_btree1", b1), ("entry_btree2", b2), ("entry_btree5", b5)],
        _ => vec![],
    }
}
