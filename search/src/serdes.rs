//! serde: round trips, and maps built from an access whose size hint lies
use crate::ch::{Ch, R};
use crate::{ck, ckeq, Test};
use lazy_clone_collections::{AvlMap, AvlSet, BTreeSet, Map};
use serde::de::value::{Error, I32Deserializer, U32Deserializer};
use serde::de::{DeserializeSeed, IntoDeserializer, MapAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize};
use std::collections::{BTreeMap as Std, BTreeSet as StdSet};

/// a map in some format, with whatever length the format claims for it
struct Acc {
    items: Vec<(i32, u32)>,
    pos: usize,
    hint: Option<usize>,
    fail_at: Option<usize>,
}

impl<'de> MapAccess<'de> for Acc {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        if self.fail_at == Some(self.pos) {
            return Err(serde::de::Error::custom("broken input"));
        }
        if self.pos >= self.items.len() {
            return Ok(None);
        }
        let d: I32Deserializer<Error> = self.items[self.pos].0.into_deserializer();
        seed.deserialize(d).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        let d: U32Deserializer<Error> = self.items[self.pos].1.into_deserializer();
        self.pos += 1;
        seed.deserialize(d)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}

impl<'de> Deserializer<'de> for Acc {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_map(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

fn gen(c: &mut Ch) -> Vec<(i32, u32)> {
    let n = match c.to(6) {
        0 => c.to(4),
        1 | 2 => c.to(20),
        3 | 4 => c.to(80),
        _ => c.to(400),
    };
    let mut v: Vec<(i32, u32)> = vec![];
    match c.to(5) {
        0..=2 => {
            // sorted
            let mut k = 0;
            for i in 0..n {
                k += 1 + c.to(3) as i32;
                v.push((k, i));
            }
        }
        3 => {
            // nearly sorted: one place is wrong
            let mut k = 0;
            for i in 0..n {
                k += 1;
                v.push((k, i));
            }
            if n > 0 {
                let (i, j) = (c.to(n) as usize, c.to(n) as usize);
                if c.to(2) == 0 {
                    v.swap(i, j);
                } else {
                    v[i].0 = v[j].0;
                }
            }
        }
        _ => {
            for i in 0..n {
                v.push((c.to(n + 3) as i32, i));
            }
        }
    }
    v
}

fn hint(c: &mut Ch, n: usize) -> Option<usize> {
    match c.to(9) {
        0 => None,
        1 | 2 => Some(n),
        3 => Some(n + 1 + c.to(3) as usize),
        4 => Some(n.saturating_sub(1 + c.to(3) as usize)),
        5 => Some(n + c.to(200) as usize),
        6 => Some(c.to(n as u32 + 1) as usize),
        7 => Some(0),
        _ => Some([usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, 1 << 40][c.to(4) as usize]),
    }
}

macro_rules! hints {
    ($name:ident, $Map:ty) => {
        fn $name(c: &mut Ch) -> R {
            let items = gen(c);
            let h = hint(c, items.len());
            let fail_at = if c.odds(6) { Some(c.to(items.len() as u32 + 1) as usize) } else { None };
            c.log(|| format!("items {items:?}"));
            c.log(|| format!("size hint {h:?}, {} items, fail_at {fail_at:?}", items.len()));
            let want: Std<i32, u32> = items.iter().copied().collect();
            let r = <$Map>::deserialize(Acc { items: items.clone(), pos: 0, hint: h, fail_at });
            match (r, fail_at) {
                (Err(_), Some(_)) => Ok(()),
                // a format that stops asking is only wrong if elements were lost
                (Ok(_), Some(i)) if i >= items.len() => Ok(()),
                (Ok(_), Some(_)) => Err("an error of the input was swallowed".into()),
                (Err(e), None) => Err(format!("deserialize failed: {e}")),
                (Ok(mut m), None) => {
                    let v: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect();
                    let w: Vec<_> = want.iter().map(|(k, v)| (*k, *v)).collect();
                    ckeq!(v, w, "contents of the deserialized map");
                    ckeq!(m.len(), w.len(), "len() of the deserialized map");
                    if let Err(e) = m.check() {
                        return Err(format!("invariant of the deserialized map: {e}"));
                    }
                    for (k, v) in &w {
                        ckeq!(m.get(k), Some(v), "get({k}) in the deserialized map");
                    }
                    for (k, v) in &w {
                        ckeq!(m.remove(k), Some(*v), "remove({k}) from the deserialized map");
                    }
                    ckeq!(m.len(), 0, "len() of the emptied map");
                    Ok(())
                }
            }
        }
    };
}
hints!(h_avl, AvlMap<i32, u32>);
hints!(h_b1, lazy_clone_collections::btree::BTreeMap<i32, u32, 1>);
hints!(h_b2, lazy_clone_collections::btree::BTreeMap<i32, u32, 2>);
hints!(h_b5, lazy_clone_collections::BTreeMap<i32, u32>);

fn trip<T: Serialize + for<'a> Deserialize<'a>>(x: &T) -> Result<T, String> {
    let s = serde_json::to_string(x).map_err(|e| format!("serialize: {e}"))?;
    serde_json::from_str(&s).map_err(|e| format!("deserialize {s}: {e}"))
}

fn round(c: &mut Ch) -> R {
    let items = gen(c);
    c.log(|| format!("round trip of {items:?}"));
    c.log(|| "json".to_string());
    let want: Std<i32, u32> = items.iter().copied().collect();
    let js = serde_json::to_string(&want).unwrap();
    macro_rules! m {
        ($T:ty, $n:expr) => {{
            let m: $T = items.iter().copied().collect();
            ckeq!(serde_json::to_string(&m).map_err(|e| e.to_string())?, js, "{} serialized", $n);
            let r = trip(&m)?;
            let v: Vec<_> = r.iter().map(|(k, v)| (*k, *v)).collect();
            let w: Vec<_> = want.iter().map(|(k, v)| (*k, *v)).collect();
            ckeq!(v, w, "{}: deserialize(serialize(m))", $n);
            ck!(r == m, "{}: deserialize(serialize(m)) != m", $n);
            if let Err(e) = r.check() {
                return Err(format!("{}: invariant of the deserialized map: {e}", $n));
            }
        }};
    }
    m!(AvlMap<i32, u32>, "AvlMap");
    m!(lazy_clone_collections::btree::BTreeMap<i32, u32, 1>, "BTreeMap<1>");
    m!(lazy_clone_collections::btree::BTreeMap<i32, u32, 3>, "BTreeMap<3>");
    m!(lazy_clone_collections::BTreeMap<i32, u32>, "BTreeMap<5>");
    let ws: StdSet<i32> = want.keys().copied().collect();
    let a: AvlSet<i32> = ws.iter().copied().collect();
    let r = trip(&a)?;
    ck!(r.iter().eq(ws.iter()) && r.len() == ws.len(), "AvlSet: deserialize(serialize(s)) is {:?}", r.iter().collect::<Vec<_>>());
    let b: BTreeSet<i32> = ws.iter().copied().collect();
    let r = trip(&b)?;
    ck!(r.iter().eq(ws.iter()) && r.len() == ws.len(), "BTreeSet: deserialize(serialize(s)) is {:?}", r.iter().collect::<Vec<_>>());
    Ok(())
}

pub fn tests(prop: &str) -> Vec<Test> {
    match prop {
        "C13" => vec![
            ("hints_avl", h_avl),
            ("hints_btree1", h_b1),
            ("hints_btree2", h_b2),
            ("hints_btree5", h_b5),
            ("round_trip", round),
        ],
        _ => vec![],
    }
}
