//! Driver for the label stores.
use crate::common::*;
use graphannis_core::annostorage::{AnnotationStorage, Match, NodeAnnotationStorage, ValueSearch, inmemory, ondisk};
use graphannis_core::types::{AnnoKey, Annotation, Edge, NodeID};
use serde_json::{Value, json};
use std::path::Path;

/// Regular expressions with the meaning of spec/Regex.tla
#[derive(Clone)]
pub enum Re {
    Lit(char),
    Any,
    Cls(bool, Vec<(char, char)>),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, usize),
}
impl Re {
    pub fn json(&self) -> Value {
        match self {
            Re::Lit(c) => json!(["lit", *c as u32]),
            Re::Any => json!(["any"]),
            Re::Cls(n, v) => {
                let mut a = vec![json!("cls"), json!(n)];
                a.extend(v.iter().map(|(l, h)| json!([*l as u32, *h as u32])));
                Value::Array(a)
            }
            Re::Cat(v) | Re::Alt(v) => {
                let mut a = vec![json!(if matches!(self, Re::Cat(_)) { "cat" } else { "alt" })];
                a.extend(v.iter().map(|r| r.json()));
                Value::Array(a)
            }
            Re::Rep(r, lo, hi) => json!(["rep", r.json(), lo, hi]),
        }
    }
    pub fn text(&self) -> String {
        fn ch(c: char) -> String {
            if "\\.+*?()|[]{}^$#&-~/".contains(c) || (c as u32) < 32 {
                format!("\\x{{{:X}}}", c as u32)
            } else {
                c.to_string()
            }
        }
        match self {
            Re::Lit(c) => ch(*c),
            Re::Any => ".".into(),
            Re::Cls(n, v) => {
                let mut s = String::from(if *n { "[^" } else { "[" });
                for (l, h) in v {
                    s += &format!("{}-{}", ch(*l), ch(*h));
                }
                s + "]"
            }
            Re::Cat(v) => v.iter().map(|r| if matches!(r, Re::Alt(_)) { format!("({})", r.text()) } else { r.text() }).collect(),
            Re::Alt(v) => v.iter().map(|r| r.text()).collect::<Vec<_>>().join("|"),
            Re::Rep(r, lo, hi) => {
                let b = format!("({})", r.text());
                match (*lo, *hi) {
                    (0, 0) => b + "*",
                    (1, 0) => b + "+",
                    (0, 1) => b + "?",
                    (l, 0) => format!("{b}{{{l},}}"),
                    (l, h) => format!("{b}{{{l},{h}}}"),
                }
            }
        }
    }
    pub fn random(r: &mut Rng, words: &[String], depth: usize) -> Re {
        let chars = |r: &mut Rng| -> char {
            let w = r.pick(words).clone();
            let c: Vec<char> = w.chars().collect();
            if c.is_empty() { 'a' } else { *r.pick(&c) }
        };
        match r.n(if depth == 0 { 4 } else { 10 }) {
            0 => Re::Any,
            1 => Re::Cls(r.p(40), (0..r.range(1, 2)).map(|_| { let a = chars(r); let b = chars(r); (a.min(b), a.max(b)) }).collect()),
            2 => Re::Lit(chars(r)),
            3 | 4 => {
                // a word or its beginning
                let mut c: Vec<Re> = r.pick(words).chars().map(Re::Lit).collect();
                if r.p(50) && c.len() > 1 {
                    c.truncate(r.range(1, c.len()));
                }
                if r.p(50) {
                    c.push(Re::Rep(Box::new(Re::Any), r.n(2), 0));
                }
                Re::Cat(c)
            }
            5 | 6 => Re::Alt((0..r.range(2, 3)).map(|_| Re::random(r, words, depth - 1)).collect()),
            7 | 8 => Re::Cat((0..r.range(1, 3)).map(|_| Re::random(r, words, depth - 1)).collect()),
            _ => {
                let lo = r.n(3);
                let hi = if r.p(50) { 0 } else { r.range(lo.max(1), 3) };
                Re::Rep(Box::new(Re::random(r, words, depth - 1)), lo, hi)
            }
        }
    }
}

trait Item: Clone + Send + Sync + Ord + std::hash::Hash + Default + 'static {
    fn pool(r: &mut Rng) -> Vec<Self>;
    /// greater than all of `small_pool`
    fn filler(i: usize) -> Self;
    fn small_pool() -> Vec<Self>;
    fn node(&self) -> NodeID;
    fn open(ondisk: bool, p: Option<&Path>) -> R<Store<Self>>;
}
enum Store<T: Item> {
    Plain(Box<dyn AnnotationStorage<T>>),
    Node(Box<dyn NodeAnnotationStorage>, std::marker::PhantomData<T>),
}
impl Item for NodeID {
    fn pool(r: &mut Rng) -> Vec<NodeID> {
        let n = r.range(1, 4);
        let mut v: Vec<NodeID> = (0..n).map(|_| *r.pick(&[0, 1, 2, 255, 256, 1 << 40, u64::MAX - 1, u64::MAX])).collect();
        v.sort();
        v.dedup();
        v
    }
    fn filler(i: usize) -> NodeID {
        (1 << 41) + i as u64
    }
    fn small_pool() -> Vec<NodeID> {
        vec![0, 1, 256, 1 << 40]
    }
    fn node(&self) -> NodeID {
        *self
    }
    fn open(disk: bool, p: Option<&Path>) -> R<Store<NodeID>> {
        Ok(Store::Node(
            if disk {
                Box::new(ondisk::AnnoStorageImpl::<NodeID>::new(p.map(|p| p.join(ondisk::SUBFOLDER_NAME)))?)
            } else {
                Box::new(inmemory::AnnoStorageImpl::<NodeID>::new())
            },
            std::marker::PhantomData,
        ))
    }
}
impl Item for Edge {
    fn pool(r: &mut Rng) -> Vec<Edge> {
        let n = r.range(1, 4);
        let mut v: Vec<Edge> = (0..n)
            .map(|_| Edge { source: *r.pick(&[0, 1, 256, u64::MAX]), target: *r.pick(&[0, 1, 255, u64::MAX]) })
            .collect();
        v.sort();
        v.dedup();
        v
    }
    fn filler(i: usize) -> Edge {
        Edge { source: (1 << 41) + i as u64, target: (i / 3) as u64 }
    }
    fn small_pool() -> Vec<Edge> {
        [(0, 1), (1, 255), (256, 0)].iter().map(|(s, t)| Edge { source: *s, target: *t }).collect()
    }
    fn node(&self) -> NodeID {
        self.source
    }
    fn open(disk: bool, p: Option<&Path>) -> R<Store<Edge>> {
        Ok(Store::Plain(if disk {
            Box::new(ondisk::AnnoStorageImpl::<Edge>::new(p.map(|p| p.join(ondisk::SUBFOLDER_NAME)))?)
        } else {
            Box::new(inmemory::AnnoStorageImpl::<Edge>::new())
        }))
    }
}

struct D<T: Item> {
    s: Store<T>,
    disk: bool,
    items: Vec<T>,
    keys: Vec<AnnoKey>,
    vals: Vec<String>,
    dir: tempfile::TempDir,
    saved: usize,
    /// number of items that are always asked for, and probability of questions about names
    asked: usize,
    often: usize,
}
macro_rules! st {
    ($self:ident, $s:ident, $e:expr) => {
        match &$self.s {
            Store::Plain($s) => $e,
            Store::Node($s, _) => {
                // same trait, known item type
                let $s: &dyn AnnotationStorage<NodeID> = $s.as_ref();
                let $s: &dyn AnnotationStorage<T> = unsafe { std::mem::transmute($s) };
                $e
            }
        }
    };
}
macro_rules! stm {
    ($self:ident, $s:ident, $e:expr) => {
        match &mut $self.s {
            Store::Plain($s) => $e,
            Store::Node($s, _) => {
                let $s: &mut dyn AnnotationStorage<NodeID> = $s.as_mut();
                let $s: &mut dyn AnnotationStorage<T> = unsafe { std::mem::transmute($s) };
                $e
            }
        }
    };
}

fn key(k: &AnnoKey) -> Value {
    json!([k.ns.as_str(), k.name.as_str()])
}
fn opt(o: &Option<String>) -> Value {
    match o {
        None => json!([]),
        Some(s) => json!([s]),
    }
}

impl<T: Item> D<T> {
    fn val(&self, s: &str) -> usize {
        self.vals.iter().position(|v| v == s).map(|i| i + 1).unwrap_or(0)
    }
    fn src(&self, m: &Match) -> Value {
        let s = self.items.iter().position(|i| i.node() == m.node).map(|i| i + 1).unwrap_or(0);
        json!([s, m.anno_key.ns.as_str(), m.anno_key.name.as_str()])
    }
    fn matches<'a>(&self, it: Box<dyn Iterator<Item = graphannis_core::errors::Result<Match>> + 'a>) -> R<Value> {
        let mut v = vec![];
        for m in it {
            v.push(self.src(&m?));
        }
        Ok(Value::Array(v))
    }
    fn answers(&self, r: &mut Rng) -> R<Value> {
        st!(self, s, self.answers_of(s.as_ref2(), r))
    }
    fn answers_of(&self, s: &dyn AnnotationStorage<T>, r: &mut Rng) -> R<Value> {
        let mut names: Vec<String> = self.keys.iter().map(|k| k.name.to_string()).collect();
        names.push("none".into());
        names.sort();
        names.dedup();
        let mut nss: Vec<Option<String>> = self.keys.iter().map(|k| Some(k.ns.to_string())).collect();
        nss.push(None);
        nss.sort();
        nss.dedup();
        let (mut item, mut keys, mut val) = (vec![], vec![], vec![]);
        let mut ask: Vec<usize> = (0..self.asked).collect();
        if self.asked < self.items.len() {
            ask.extend((0..3).map(|_| r.range(self.asked, self.items.len() - 1)));
            ask.sort();
            ask.dedup();
        }
        for &i in &ask {
            let it = &self.items[i];
            let a = s.get_annotations_for_item(it)?;
            item.push(json!([i + 1, a.iter().map(|a| json!([a.key.ns.as_str(), a.key.name.as_str(), self.val(&a.val)])).collect::<Vec<_>>()]));
            for k in &self.keys {
                let v = s.get_value_for_item(it, k)?.map(|v| self.val(&v)).unwrap_or(0);
                val.push(json!([i + 1, key(k), v, s.has_value_for_item(it, k)?]));
            }
            for (ns, name) in [
                (None, None),
                (None, Some(r.pick(&names).clone())),
                (r.pick(&nss).clone(), Some(r.pick(&names).clone())),
            ] {
                let l: Vec<Value> =
                    s.get_all_keys_for_item(it, ns.as_deref(), name.as_deref())?.iter().map(|k| key(k)).collect();
                keys.push(json!([i + 1, opt(&ns), opt(&name), l]));
            }
        }
        let mut iter = vec![];
        for (ns, name) in [
            (None, None),
            (None, Some(r.pick(&names).clone())),
            (r.pick(&nss).clone(), Some(r.pick(&names).clone())),
        ] {
            let sel: Vec<usize> = ask.iter().copied().filter(|_| r.p(70)).collect();
            let it = sel.iter().map(|i| Ok(self.items[*i].clone()));
            let m = s.get_keys_for_iterator(ns.as_deref(), name.as_deref(), Box::new(it))?;
            let m: Vec<Value> = m.iter().map(|m| self.src(m)).collect();
            iter.push(json!([opt(&ns), opt(&name), sel.iter().map(|i| i + 1).collect::<Vec<_>>(), m]));
        }
        let (mut qn, mut cnt, mut any, mut some, mut no, mut re) = (vec![], vec![], vec![], vec![], vec![], vec![]);
        for name in &names {
            qn.push(json!([name, s.get_qnames(name)?.iter().map(key).collect::<Vec<_>>()]));
            for ns in &nss {
                if !r.p(self.often) {
                    continue;
                }
                let n = ns.as_deref();
                cnt.push(json!([opt(ns), name, s.number_of_annotations_by_name(n, name)?]));
                any.push(json!([opt(ns), name, self.matches(s.exact_anno_search(n, name, ValueSearch::Any))?]));
                let v = r.n(self.vals.len());
                let w = r.n(self.vals.len());
                some.push(json!([opt(ns), name, v + 1, self.matches(s.exact_anno_search(n, name, ValueSearch::Some(&self.vals[v])))?]));
                no.push(json!([opt(ns), name, w + 1, self.matches(s.exact_anno_search(n, name, ValueSearch::NotSome(&self.vals[w])))?]));
            }
        }
        for _ in 0..(if self.often < 100 { 1 } else { 6 }) {
            let name = r.pick(&names).clone();
            let ns = if r.p(60) { None } else { r.pick(&nss).clone() };
            let x = Re::random(r, &self.vals, 2);
            let neg = r.p(40);
            re.push(json!([opt(&ns), name, x.json(), neg, self.matches(s.regex_anno_search(ns.as_deref(), &name, &x.text(), neg))?, x.text()]));
        }
        let mut vals = vec![];
        for k in &self.keys {
            let a: Vec<usize> = s.get_all_values(k, false)?.iter().map(|v| self.val(v)).collect();
            let b: Vec<usize> = s.get_all_values(k, true)?.iter().map(|v| self.val(v)).collect();
            vals.push(json!([key(k), a, b]));
        }
        // the estimations must not fail
        for name in &names {
            for ns in &nss {
                let n = ns.as_deref();
                s.guess_max_count(n, name, &self.vals[0], &self.vals[0])?;
                s.guess_max_count_regex(n, name, &Re::random(r, &self.vals, 2).text())?;
                s.guess_most_frequent_value(n, name)?;
            }
        }
        let largest = s
            .get_largest_item()?
            .map(|l| self.items.iter().rposition(|i| *i <= l).map(|i| i + 1).unwrap_or(0))
            .unwrap_or(0);
        let mut a = json!({"item": item, "keys": keys, "val": val, "iter": iter, "qn": qn,
            "allkeys": s.annotation_keys()?.iter().map(key).collect::<Vec<_>>(),
            "n": s.number_of_annotations()?, "empty": s.is_empty()?, "cnt": cnt, "any": any, "some": some, "no": no,
            "re": re, "vals": vals, "largest": largest});
        if let Store::Node(n, _) = &self.s {
            let mut named = vec![];
            for (i, v) in self.vals.iter().enumerate() {
                let id = n.get_node_id_from_name(v)?;
                let id = match id {
                    None => 0,
                    Some(id) => self.items.iter().position(|x| x.node() == id).map(|x| x as i64 + 1).unwrap_or(-1),
                };
                named.push(json!([i + 1, id, n.has_node_name(v)?]));
            }
            a["named"] = json!(named);
        }
        Ok(a)
    }
    fn step(&mut self, r: &mut Rng) -> R<Value> {
        let i = if self.asked < self.items.len() && r.p(50) {
            r.range(self.asked, self.items.len() - 1)
        } else {
            r.n(self.asked)
        };
        let k = r.n(self.keys.len());
        let v = r.n(self.vals.len());
        let item = self.items[i].clone();
        let ak = self.keys[k].clone();
        let x = r.n(100);
        Ok(if x < 60 {
            let val = self.vals[v].clone();
            stm!(self, s, s.insert(item, Annotation { key: ak.clone(), val: val.into() })?);
            json!({"e":"Insert","i":i + 1,"k":key(&ak),"v":v + 1})
        } else if x < 78 {
            let old = stm!(self, s, s.remove_annotation_for_item(&item, &ak)?.map(|v| v.to_string()));
            json!({"e":"Remove","i":i + 1,"k":key(&ak),"old":old.map(|v| self.val(&v)).unwrap_or(0)})
        } else if x < 86 {
            let had = stm!(self, s, s.remove_item(&item)?);
            json!({"e":"RemoveItem","i":i + 1,"had":had})
        } else if x < 88 {
            stm!(self, s, s.clear()?);
            json!({"e":"Clear"})
        } else if x < 93 {
            stm!(self, s, s.calculate_statistics()?);
            json!({"e":"Same","what":"statistics"})
        } else {
            self.saved += 1;
            let loc = self.dir.path().join(format!("s{}", self.saved));
            std::fs::create_dir_all(&loc)?;
            st!(self, s, s.save_annotations_to(&loc)?);
            let how = r.n(4);
            let w = match how {
                0 => "saved",
                1 => {
                    // into the same object
                    stm!(self, s, s.load_annotations_from(&loc)?);
                    "reloaded"
                }
                2 => {
                    self.s = T::open(self.disk, None)?;
                    stm!(self, s, s.load_annotations_from(&loc)?);
                    "loaded"
                }
                _ => {
                    self.s = T::open(self.disk, Some(&loc))?;
                    if !self.disk {
                        stm!(self, s, s.load_annotations_from(&loc)?);
                    }
                    "opened"
                }
            };
            json!({"e":"Same","what":w})
        })
    }
}
trait AsRef2<T: Send + Sync> {
    fn as_ref2(&self) -> &dyn AnnotationStorage<T>;
}
impl<T: Send + Sync> AsRef2<T> for Box<dyn AnnotationStorage<T>> {
    fn as_ref2(&self) -> &dyn AnnotationStorage<T> {
        self.as_ref()
    }
}
impl<T: Send + Sync> AsRef2<T> for &dyn AnnotationStorage<T> {
    fn as_ref2(&self) -> &dyn AnnotationStorage<T> {
        *self
    }
}

fn one<T: Item>(r: &mut Rng, id: u64, disk: bool, bulk: usize, out: &mut Out) -> R<()> {
    let mut items = T::pool(r);
    let mut asked = items.len();
    if bulk > 0 {
        items = T::small_pool();
        asked = items.len();
        items.extend((0..bulk).map(T::filler));
    }
    let mut words: Vec<String> = ["", "a", "b", "ab", "A", "abc", "a b", "ä", "ö", "äö", "日本", "a\u{0}", "a\u{0}b", "\u{0}", "\u{10FFFF}", "\u{10FFFF}z",
        "a\u{10FFFF}\u{10FFFF}", "a\nb", "::", "a::b", "x\"y'z", "</e>&", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "\u{0}\u{0}\u{0}\u{0}\u{0}\u{0}\u{0}\u{0}\u{1}"]
        .iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut words);
    words.truncate(r.range(3, 8));
    let mut keys: Vec<AnnoKey> = [("", "n"), ("ns", "n"), ("annis", "node_name"), ("", ""), ("\u{10FFFF}x", "n"), ("n", "m"), ("ä", "ö ö"), ("annis", "node_type")]
        .iter().map(|(a, b)| AnnoKey { ns: (*a).into(), name: (*b).into() }).collect();
    r.shuffle(&mut keys);
    keys.truncate(r.range(1, 5));
    let mut first = std::collections::HashMap::new();
    let src: Vec<usize> =
        items.iter().enumerate().map(|(p, i)| *first.entry(i.node()).or_insert(p + 1)).collect();
    let mut d = D { s: T::open(disk, None)?, disk, items, keys, vals: words, dir: tempfile::tempdir()?, saved: 0, asked: 0, often: 100 };
    d.asked = asked;
    if bulk > 0 {
        d.often = 30;
    }
    let mut ev = vec![];
    let mut filled = asked;
    for _ in 0..(if bulk > 0 { r.range(3, 6) } else { r.range(3, 25) }) {
        let res = guarded(|| {
            let mut e = if filled < d.items.len() && r.p(70) {
                let to = if r.p(60) { d.items.len() } else { r.range(filled + 1, d.items.len()) };
                let k = r.pick(&d.keys).clone();
                for i in filled + 1..=to {
                    let (item, v) = (d.items[i - 1].clone(), d.vals[i % d.vals.len()].clone());
                    stm!(d, s, s.insert(item, Annotation { key: k.clone(), val: v.into() })?);
                }
                let e = json!({"e":"Fill","from":filled + 1,"to":to,"k":key(&k),"m":d.vals.len()});
                filled = to;
                e
            } else {
                d.step(r)?
            };
            e["a"] = d.answers(r)?;
            Ok(e)
        });
        match res {
            Ok(e) => ev.push(e),
            Err(w) => {
                ev.push(json!({"e":"Fail","what":w}));
                break;
            }
        }
    }
    let text: Vec<Vec<u32>> = d.vals.iter().map(|v| v.chars().map(|c| c as u32).collect()).collect();
    out.line(&json!({"id": id, "disk": disk, "vals": d.vals, "text": text, "src": src,
        "items": std::any::type_name::<T>(), "ev": ev}))?;
    Ok(())
}

pub fn run(a: &Args) -> R<()> {
    let mut out = Out::create(&a.s("out", "/dev/stdout"))?;
    let seed = a.u("seed", 1);
    for i in 0..a.u("n", 50) {
        let id = seed.wrapping_mul(1_000_003) + i;
        let mut r = Rng::new(id);
        let b = a.u("bulk", 0) as usize;
        match if b > 0 { id % 4 } else { i % 4 } {
            0 => one::<NodeID>(&mut r, id, false, b, &mut out)?,
            1 => one::<NodeID>(&mut r, id, true, b, &mut out)?,
            2 => one::<Edge>(&mut r, id, false, b, &mut out)?,
            _ => one::<Edge>(&mut r, id, true, b, &mut out)?,
        }
    }
    Ok(())
}
