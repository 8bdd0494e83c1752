//! Shared pieces: random numbers, JSON output, the projection of a real graph to the
//! abstract state of the specification.
use graphannis::AnnotationGraph;
use graphannis::graph::*;
use graphannis::model::{AnnotationComponent, AnnotationComponentType};
use graphannis::update::{GraphUpdate, UpdateEvent};
use graphannis_core::annostorage::ValueSearch;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

pub type R<T> = Result<T, Box<dyn std::error::Error>>;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % (n as u64)) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }
    pub fn p(&mut self, percent: usize) -> bool {
        self.n(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.n(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.n(i + 1);
            v.swap(i, j);
        }
    }
}

/// One change of an update list, in the encoding of AnnoGraph.tla
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    AN(String, String),
    DN(String),
    AL(String, String, String, String),
    DL(String, String, String),
    AE(String, String, Comp),
    DE(String, String, Comp),
    AEL(String, String, Comp, String, String, String),
    DEL(String, String, Comp, String, String),
    /// Many new nodes with a label each, connected as a tree by labelled edges
    Bulk(Box<Bulk>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Bulk {
    pub pre: String,
    pub from: usize,
    pub to: usize,
    pub ty: String,
    pub ns: String,
    pub name: String,
    pub vals: Vec<String>,
    pub comp: Comp,
    pub k: usize,
}
impl Bulk {
    fn events(&self) -> Vec<Op> {
        let n = |i: usize| format!("{}{i}", self.pre);
        let mut v = vec![];
        for i in self.from..=self.to {
            let val = self.vals[i % self.vals.len()].clone();
            v.push(Op::AN(n(i), self.ty.clone()));
            v.push(Op::AL(n(i), self.ns.clone(), self.name.clone(), val.clone()));
            if i > self.from {
                let p = n(self.from + (i - self.from - 1) / self.k);
                v.push(Op::AE(p.clone(), n(i), self.comp.clone()));
                v.push(Op::AEL(p, n(i), self.comp.clone(), self.ns.clone(), self.name.clone(), val));
            }
        }
        v
    }
}
pub type Comp = (String, String, String);

pub fn comp(t: &str, l: &str, n: &str) -> Comp {
    (t.into(), l.into(), n.into())
}
pub fn comp_json(c: &Comp) -> Value {
    json!([c.0, c.1, c.2])
}
pub fn real_comp(c: &Comp) -> AnnotationComponent {
    AnnotationComponent::new(
        AnnotationComponentType::from_str(&c.0).unwrap(),
        c.1.as_str().into(),
        c.2.as_str().into(),
    )
}

impl Op {
    pub fn json(&self) -> Value {
        match self {
            Op::AN(n, t) => json!(["AN", n, t]),
            Op::DN(n) => json!(["DN", n]),
            Op::AL(n, a, b, v) => json!(["AL", n, a, b, v]),
            Op::DL(n, a, b) => json!(["DL", n, a, b]),
            Op::AE(s, t, c) => json!(["AE", s, t, comp_json(c)]),
            Op::DE(s, t, c) => json!(["DE", s, t, comp_json(c)]),
            Op::AEL(s, t, c, a, b, v) => json!(["AEL", s, t, comp_json(c), a, b, v]),
            Op::DEL(s, t, c, a, b) => json!(["DEL", s, t, comp_json(c), a, b]),
            Op::Bulk(b) => json!(["BULK", b.pre, b.from, b.to, b.ty, b.ns, b.name, b.vals, comp_json(&b.comp), b.k]),
        }
    }
    pub fn event(&self) -> UpdateEvent {
        match self.clone() {
            Op::AN(n, t) => UpdateEvent::AddNode { node_name: n, node_type: t },
            Op::DN(n) => UpdateEvent::DeleteNode { node_name: n },
            Op::AL(n, a, b, v) => UpdateEvent::AddNodeLabel {
                node_name: n, anno_ns: a, anno_name: b, anno_value: v,
            },
            Op::DL(n, a, b) => UpdateEvent::DeleteNodeLabel { node_name: n, anno_ns: a, anno_name: b },
            Op::AE(s, t, c) => UpdateEvent::AddEdge {
                source_node: s, target_node: t, component_type: c.0, layer: c.1, component_name: c.2,
            },
            Op::DE(s, t, c) => UpdateEvent::DeleteEdge {
                source_node: s, target_node: t, component_type: c.0, layer: c.1, component_name: c.2,
            },
            Op::AEL(s, t, c, a, b, v) => UpdateEvent::AddEdgeLabel {
                source_node: s, target_node: t, component_type: c.0, layer: c.1, component_name: c.2,
                anno_ns: a, anno_name: b, anno_value: v,
            },
            Op::DEL(s, t, c, a, b) => UpdateEvent::DeleteEdgeLabel {
                source_node: s, target_node: t, component_type: c.0, layer: c.1, component_name: c.2,
                anno_ns: a, anno_name: b,
            },
            Op::Bulk(_) => unreachable!(),
        }
    }
}

/// Builds the update list. Depending on the changes, it is looked at while it is not complete
/// yet, or stored and read again: all of this must not matter.
pub fn to_update(ops: &[Op]) -> R<GraphUpdate> {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    ops.hash(&mut h);
    let h = h.finish() as usize;
    let mut u = GraphUpdate::new();
    for (i, o) in ops.iter().enumerate() {
        match o {
            Op::Bulk(b) => {
                for e in b.events() {
                    u.add_event(e.event())?;
                }
            }
            o => u.add_event(o.event())?,
        }
        if h % 5 == 0 && i == (h / 5) % ops.len() {
            for e in u.iter()? {
                e?;
            }
        }
        if h % 7 == 0 && i == (h / 7) % ops.len() {
            u = bincode::deserialize(&bincode::serialize(&u)?)?;
        }
    }
    Ok(u)
}
pub fn ops_json(ops: &[Op]) -> Value {
    Value::Array(ops.iter().map(|o| o.json()).collect())
}

pub fn is_index_comp(c: &Comp) -> bool {
    c.0 == "LeftToken" || c.0 == "RightToken"
        || (c.0 == "Coverage" && c.1 == "annis" && c.2 == "inherited-coverage")
}

fn fwd(c: &AnnotationComponent) -> Comp {
    (c.get_type().to_string(), c.layer.to_string(), c.name.to_string())
}

/// The projection of a real graph: every relation is read through two independent interfaces.
pub struct Projection {
    pub labels: BTreeSet<(String, String, String, String)>,
    pub edges_out: BTreeSet<(Comp, String, String)>,
    pub edges_in: BTreeSet<(Comp, String, String)>,
    pub elabels: BTreeSet<(Comp, String, String, String, String, String)>,
    pub n_labels: usize,
    pub n_elabels: usize,
    /// items found several times, orphaned things etc.
    pub odd: Vec<String>,
}

pub fn project(g: &AnnotationGraph) -> R<Projection> {
    let mut p = Projection {
        labels: BTreeSet::new(),
        edges_out: BTreeSet::new(),
        edges_in: BTreeSet::new(),
        elabels: BTreeSet::new(),
        n_labels: 0,
        n_elabels: 0,
        odd: vec![],
    };
    let na = g.get_node_annos();
    let mut names: BTreeMap<NodeID, String> = BTreeMap::new();
    let mut ids: BTreeSet<NodeID> = BTreeSet::new();
    for m in na.exact_anno_search(Some("annis"), "node_name", ValueSearch::Any) {
        let m = m?;
        let v = na
            .get_value_for_item(&m.node, &m.anno_key)?
            .map(|v| v.to_string())
            .unwrap_or_default();
        if let Some(i) = na.get_node_id_from_name(&v)? {
            if i != m.node {
                p.odd.push(format!("name {v} resolves to {i}, found at {}", m.node));
            }
        } else {
            p.odd.push(format!("name {v} does not resolve"));
        }
        if !na.has_node_name(&v)? {
            p.odd.push(format!("has_node_name false for {v}"));
        }
        if names.insert(m.node, v.clone()).is_some() {
            p.odd.push(format!("node {v} found twice"));
        }
        ids.insert(m.node);
    }
    let max = na.get_largest_item()?.unwrap_or(0);
    for i in 0..=(max + 3) {
        ids.insert(i);
    }
    let nm = |i: NodeID| names.get(&i).cloned().unwrap_or_else(|| format!("#{i}"));
    for i in &ids {
        for a in na.get_annotations_for_item(i)? {
            if !p.labels.insert((
                nm(*i),
                a.key.ns.to_string(),
                a.key.name.to_string(),
                a.val.to_string(),
            )) {
                p.odd.push(format!("label {} of {} twice", a.key.name, nm(*i)));
            }
        }
    }
    p.n_labels = na.number_of_annotations()?;
    for c in g.get_all_components(None, None) {
        let fc = fwd(&c);
        let gs = match g.get_graphstorage(&c) {
            Some(x) => x,
            None => {
                p.odd.push(format!("component {c} not available"));
                continue;
            }
        };
        let mut all = ids.clone();
        let mut sources = BTreeSet::new();
        for s in gs.source_nodes() {
            let s = s?;
            if !sources.insert(s) {
                p.odd.push(format!("source node {} of {c} twice", nm(s)));
            }
            all.insert(s);
        }
        for s in &all {
            let mut n = 0;
            for t in gs.get_outgoing_edges(*s) {
                let t = t?;
                n += 1;
                if !p.edges_out.insert((fc.clone(), nm(*s), nm(t))) {
                    p.odd.push(format!("edge {}->{} in {c} twice", nm(*s), nm(t)));
                }
                for a in gs.get_anno_storage().get_annotations_for_item(&Edge { source: *s, target: t })? {
                    if !p.elabels.insert((
                        fc.clone(), nm(*s), nm(t),
                        a.key.ns.to_string(), a.key.name.to_string(), a.val.to_string(),
                    )) {
                        p.odd.push(format!("edge label {} twice", a.key.name));
                    }
                }
            }
            if gs.has_outgoing_edges(*s)? != (n > 0) {
                p.odd.push(format!("has_outgoing_edges wrong for {} in {c}", nm(*s)));
            }
            if (n > 0) != sources.contains(s) {
                p.odd.push(format!("source_nodes wrong for {} in {c}", nm(*s)));
            }
            let mut n = 0;
            for t in gs.get_ingoing_edges(*s) {
                let t = t?;
                n += 1;
                if !p.edges_in.insert((fc.clone(), nm(t), nm(*s))) {
                    p.odd.push(format!("ingoing edge {}->{} in {c} twice", nm(t), nm(*s)));
                }
            }
            if gs.has_ingoing_edges(*s)? != (n > 0) {
                p.odd.push(format!("has_ingoing_edges wrong for {} in {c}", nm(*s)));
            }
        }
        p.n_elabels += gs.get_anno_storage().number_of_annotations()?;
    }
    Ok(p)
}

impl Projection {
    /// JSON in the shape the trace specifications expect
    pub fn json(&self) -> Value {
        let e = |s: &BTreeSet<(Comp, String, String)>, idx: bool| -> Value {
            Value::Array(
                s.iter()
                    .filter(|x| is_index_comp(&x.0) == idx)
                    .map(|x| json!([comp_json(&x.0), x.1, x.2]))
                    .collect(),
            )
        };
        json!({
            "labels": self.labels.iter().map(|l| json!([l.0,l.1,l.2,l.3])).collect::<Vec<_>>(),
            "eo": e(&self.edges_out,false), "ei": e(&self.edges_in,false),
            "xo": e(&self.edges_out,true), "xi": e(&self.edges_in,true),
            "elabels": self.elabels.iter().map(|l| json!([comp_json(&l.0),l.1,l.2,l.3,l.4,l.5])).collect::<Vec<_>>(),
            "nl": self.n_labels, "nel": self.n_elabels,
            "odd": self.odd,
        })
    }
}

/// Run a closure, turning a panic of the code under test into data.
pub fn guarded<T>(f: impl FnOnce() -> R<T>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            Err(format!("panic: {m}"))
        }
    }
}

pub struct Args {
    pub m: BTreeMap<String, String>,
}
impl Args {
    pub fn parse(a: &[String]) -> Args {
        let mut m = BTreeMap::new();
        let mut i = 0;
        while i < a.len() {
            if let Some(k) = a[i].strip_prefix("--") {
                let v = a.get(i + 1).cloned().unwrap_or_default();
                m.insert(k.to_string(), v);
                i += 2;
            } else {
                i += 1;
            }
        }
        Args { m }
    }
    pub fn s(&self, k: &str, d: &str) -> String {
        self.m.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn u(&self, k: &str, d: u64) -> u64 {
        self.m.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    pub n: usize,
}
impl Out {
    pub fn create(p: &str) -> R<Out> {
        Ok(Out { w: std::io::BufWriter::new(std::fs::File::create(p)?), n: 0 })
    }
    pub fn line(&mut self, v: &Value) -> R<()> {
        use std::io::Write;
        // plain ASCII: the reader does not depend on the encoding of the platform
        let mut s = String::new();
        for c in serde_json::to_string(v)?.chars() {
            if c.is_ascii() {
                s.push(c);
            } else {
                for u in c.encode_utf16(&mut [0; 2]) {
                    s.push_str(&format!("\\u{u:04x}"));
                }
            }
        }
        s.push('\n');
        self.w.write_all(s.as_bytes())?;
        self.w.flush()?;
        self.n += 1;
        Ok(())
    }
}
