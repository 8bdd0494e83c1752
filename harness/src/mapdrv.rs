//! Driver for the disk-backed map.
use crate::common::*;
use graphannis_core::serializer::KeySerializer;
use graphannis_core::types::Edge;
use graphannis_core::util::disk_collections::{DEFAULT_BLOCK_CACHE_CAPACITY, DiskMap, EvictionStrategy};
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::fmt::Debug;
use std::ops::Bound;
use transient_btree_index::BtreeConfig;

/// values are numbers with padding (to fill several blocks of a file)
#[derive(Clone, Serialize, Deserialize)]
pub struct Val(u64, Vec<u8>);

trait Key: 'static + Clone + KeySerializer + Serialize + DeserializeOwned + Send + Sync + Ord + Debug {}
impl<T: 'static + Clone + KeySerializer + Serialize + DeserializeOwned + Send + Sync + Ord + Debug> Key for T {}

fn pad(v: u64, big: bool) -> Val {
    Val(v, if big { vec![(v % 251) as u8; 100 + (v as usize % 7) * 300] } else { vec![] })
}
fn unpad(v: &Val) -> R<u64> {
    if v.1.iter().any(|b| *b != (v.0 % 251) as u8) {
        return Err("value damaged".into());
    }
    Ok(v.0)
}

struct D<K: Key> {
    keys: Vec<K>, // sorted; rank = index + 1
    map: DiskMap<K, Val>,
    limit: usize,
    dir: tempfile::TempDir,
    file: usize,
    big: bool,
    order: usize,
    cache: usize,
}

impl<K: Key> D<K> {
    fn config(order: usize, big: bool) -> BtreeConfig {
        let c = BtreeConfig::default().max_value_size(if big { 2100 } else { 24 });
        c.order(order as u8)
    }
    fn new(mut keys: Vec<K>, limit: usize, big: bool, order: usize, cache: usize, named: bool, special: bool) -> R<D<K>> {
        keys.sort();
        keys.dedup();
        if !special {
            // (the table library cannot tell a key from its successor, see the emptykey profile)
            let all: std::collections::BTreeSet<Vec<u8>> = keys.iter().map(|k| k.create_key().to_vec()).collect();
            keys.retain(|k| {
                let b = k.create_key();
                !b.is_empty() && !(b[b.len() - 1] == 0 && all.contains(&b[..b.len() - 1].to_vec()))
            });
        }
        let dir = tempfile::tempdir()?;
        let map = if named {
            DiskMap::new(None, EvictionStrategy::MaximumItems(limit), cache, Self::config(order, big))?
        } else {
            DiskMap::new_temporary(EvictionStrategy::MaximumItems(limit), cache, Self::config(order, big))
        };
        Ok(D { keys, map, limit, dir, file: 0, big, order, cache })
    }
    fn rank(&self, k: &K) -> usize {
        self.keys.binary_search(k).map(|i| i + 1).unwrap_or(0)
    }
    fn list(&self, it: Box<dyn Iterator<Item = graphannis_core::errors::Result<(K, Val)>> + '_>) -> R<Value> {
        let mut v = vec![];
        for e in it {
            let (k, x) = e?;
            v.push(json!([self.rank(&k), unpad(&x)?]));
            if v.len() > 10_000 {
                return Err("endless iteration".into());
            }
        }
        Ok(json!(v))
    }
    fn answers(&self, bounds: &[(i64, i64, i64, i64)]) -> R<Value> {
        let mut get = vec![];
        let mut has = vec![];
        for (i, k) in self.keys.iter().enumerate() {
            let g = self.map.get(k)?;
            get.push(json!([i + 1, match g { Some(v) => unpad(&v)?, None => 0 }]));
            has.push(json!([i + 1, self.map.contains_key(k)?]));
        }
        let mut rng = vec![];
        for (lt, lk, ht, hk) in bounds {
            let mk = |t: i64, k: i64| -> (Bound<K>, Value) {
                match t {
                    0 => (Bound::Unbounded, json!(["u", 0])),
                    1 => (Bound::Included(self.keys[k as usize].clone()), json!(["i", k + 1])),
                    _ => (Bound::Excluded(self.keys[k as usize].clone()), json!(["e", k + 1])),
                }
            };
            let (l, lj) = mk(*lt, *lk);
            let (h, hj) = mk(*ht, *hk);
            rng.push(json!([lj, hj, self.list(self.map.range((l, h)))?]));
        }
        Ok(json!({"get": get, "has": has, "empty": self.map.is_empty()?, "iter": self.list(self.map.iter()?)?, "rng": rng}))
    }
    fn write(&mut self) -> R<std::path::PathBuf> {
        self.file += 1;
        let f = self.dir.path().join(format!("sub{}/map{}.bin", self.file % 2, self.file));
        self.map.write_to(&f)?;
        Ok(f)
    }
    fn step(&mut self, op: char, k: usize, v: u64) -> R<Value> {
        Ok(match op {
            'I' => {
                self.map.insert(self.keys[k].clone(), pad(v, self.big))?;
                json!({"e":"Insert","k":k + 1,"v":v})
            }
            'R' => {
                let old = self.map.remove(&self.keys[k])?;
                json!({"e":"Remove","k":k + 1,"old": match old { Some(v) => unpad(&v)?, None => 0 }})
            }
            'C' => {
                self.map.compact()?;
                json!({"e":"Compact"})
            }
            'X' => {
                self.map.clear();
                json!({"e":"Clear"})
            }
            'W' => {
                self.write()?;
                json!({"e":"Write"})
            }
            _ => {
                let f = self.write()?;
                self.map = DiskMap::new(
                    Some(&f),
                    EvictionStrategy::MaximumItems(self.limit),
                    self.cache,
                    Self::config(self.order, self.big),
                )?;
                json!({"e":"Reopen"})
            }
        })
    }
}

fn valid(b: &(i64, i64, i64, i64)) -> bool {
    // an ordinary sorted map refuses the others
    b.0 == 0 || b.2 == 0 || b.1 < b.3 || (b.1 == b.3 && !(b.0 == 2 && b.2 == 2))
}
fn all_bounds(n: i64) -> Vec<(i64, i64, i64, i64)> {
    let mut v = vec![];
    let one: Vec<(i64, i64)> = std::iter::once((0, 0)).chain((1..=2).flat_map(|t| (0..n).map(move |k| (t, k)))).collect();
    for l in &one {
        for h in &one {
            v.push((l.0, l.1, h.0, h.1));
        }
    }
    v.retain(valid);
    v
}

fn run_seq<K: Key>(
    d: &mut D<K>, ops: &[(char, usize)], ev: &mut Vec<Value>, every: bool, mut bounds: impl FnMut() -> Vec<(i64, i64, i64, i64)>,
) {
    let n = ops.len();
    for (i, (op, k)) in ops.iter().enumerate() {
        let r = guarded(|| {
            let mut e = d.step(*op, *k, i as u64 + 1)?;
            if every || i + 1 == n {
                e["a"] = d.answers(&bounds())?;
            }
            Ok(e)
        });
        match r {
            Ok(e) => ev.push(e),
            Err(w) => {
                ev.push(json!({"e":"Fail","what":w}));
                return;
            }
        }
    }
}

fn string_keys(r: &mut Rng, n: usize) -> Vec<String> {
    let base = ["\u{0}", "a", "ab", "a\u{0}", "b", "ä", "日本", "a b", "Z", "~", "\u{10FFFF}", "aa", "aaa"];
    let mut v: Vec<String> = base.iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut v);
    v.truncate(n.min(base.len()));
    for i in v.len()..n {
        v.push(format!("key{}{}", r.n(1000), "x".repeat(i % 40)));
    }
    v
}

fn random<K: Key>(r: &mut Rng, keys: Vec<K>, out: &mut Out, id: u64) -> R<()> {
    let big = r.p(30);
    let limit = *r.pick(&[1, 2, 3, 5, 8, 20, 10_000]);
    let order = r.range(2, 4) * if r.p(50) { 1 } else { 8 };
    let cache = *r.pick(&[1, 5000, DEFAULT_BLOCK_CACHE_CAPACITY]);
    let named = r.p(50);
    let mut d = D::new(keys, limit, big, order, cache, named, false)?;
    let n = d.keys.len();
    if n < 2 {
        return Ok(());
    }
    let len = r.range(5, if n > 12 { 120 } else { 40 });
    let ins = r.range(30, 75);
    let mut ops = vec![];
    for _ in 0..len {
        let k = r.n(n);
        let x = r.n(100);
        ops.push(if x < ins {
            ('I', k)
        } else if x < 88 {
            ('R', k)
        } else if x < 93 {
            ('C', 0)
        } else if x < 95 {
            ('W', 0)
        } else if x < 99 {
            ('O', 0)
        } else {
            ('X', 0)
        });
    }
    let mut ev = vec![];
    let mut r2 = r.clone();
    let every = n <= 12;
    run_seq(&mut d, &ops, &mut ev, every, || {
        let mut v = vec![(0, 0, 0, 0)];
        for _ in 0..8 {
            let b = (r2.n(3) as i64, r2.n(n) as i64, r2.n(3) as i64, r2.n(n) as i64);
            if valid(&b) {
                v.push(b);
            }
        }
        v
    });
    out.line(&json!({"id": id, "limit": limit, "cfg": format!("order {order} big {big} keys {n} type {}", std::any::type_name::<K>()), "ev": ev}))?;
    Ok(())
}

pub fn run(a: &Args) -> R<()> {
    let mut out = Out::create(&a.s("out", "/dev/stdout"))?;
    let seed = a.u("seed", 1);
    let n = a.u("n", 50);
    let shard = a.u("shard", 0);
    let shards = a.u("shards", 1);
    if a.s("profile", "random") == "emptykey" {
        // a key that is serialized to no bytes at all
        if shard == 0 {
            let ops = [('I', 0), ('I', 1), ('O', 0)];
            let mut d = D::<String>::new(vec!["".into(), "a".into()], 10, false, 4, 5000, false, true)?;
            let mut ev = vec![];
            run_seq(&mut d, &ops, &mut ev, false, || all_bounds(2));
            out.line(&json!({"id": 0, "limit": 10, "ev": ev}))?;
            // the last key of a block and its immediate successor
            let mut d = D::<String>::new(vec!["A".into(), "B".into(), "a".into(), "a\u{0}".into()], 10, true, 4, 5000, false, true)?;
            let mut ev = vec![];
            for (k, v) in [(0, 6), (1, 13), (2, 20), (3, 27)] {
                ev.push(d.step('I', k, v)?);
            }
            let mut e = d.step('O', 0, 0)?;
            e["a"] = d.answers(&all_bounds(4))?;
            ev.push(e);
            out.line(&json!({"id": 1, "limit": 10, "ev": ev}))?;
        }
        return Ok(());
    }
    if a.s("profile", "random") == "exhaustive" {
        // all sequences of operations up to a length, over two of three keys
        let len = a.u("len", 4) as u32;
        let ab: [(char, usize); 7] = [('I', 0), ('I', 2), ('R', 0), ('R', 2), ('C', 0), ('O', 0), ('X', 0)];
        let mut id = 0u64;
        for l in 1..=len {
            for m in 0..7u64.pow(l) {
                for limit in [1usize, 2, 100] {
                    id += 1;
                    if id % shards != shard {
                        continue;
                    }
                    let mut x = m;
                    let mut ops = vec![];
                    for _ in 0..l {
                        ops.push(ab[(x % 7) as usize]);
                        x /= 7;
                    }
                    let mut d = D::<u64>::new(vec![0, 7, 300], limit, false, 2, 5000, false, false)?;
                    let mut ev = vec![];
                    run_seq(&mut d, &ops, &mut ev, false, || all_bounds(3));
                    out.line(&json!({"id": id, "limit": limit, "ev": ev}))?;
                }
            }
        }
        return Ok(());
    }
    for i in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003) + i);
        let id = seed.wrapping_mul(1_000_003) + i;
        let k = if r.p(70) { r.range(2, 10) } else { r.range(20, 60) };
        match r.n(4) {
            0 => {
                let keys: Vec<u64> = (0..k).map(|_| *r.pick(&[r.clone().next() % 10, r.clone().next(), u64::MAX, 0, 255, 256]) ).collect();
                let mut keys = keys;
                for j in keys.iter_mut() {
                    *j = j.wrapping_add(r.n(3) as u64 * 257);
                }
                random(&mut r, keys, &mut out, id)?;
            }
            1 => {
                let keys = string_keys(&mut r, k);
                random(&mut r, keys, &mut out, id)?;
            }
            2 => {
                let keys: Vec<Vec<u8>> = (0..k).map(|i| (0..r.n(4)).map(|_| *r.pick(&[0u8, 1, 255])).chain([i as u8]).collect()).collect();
                random(&mut r, keys, &mut out, id)?;
            }
            _ => {
                let keys: Vec<Edge> = (0..k).map(|_| Edge { source: r.n(300) as u64, target: *r.pick(&[0, 1, 255, 256, u64::MAX]) }).collect();
                random(&mut r, keys, &mut out, id)?;
            }
        }
    }
    Ok(())
}
