//! Driver for the graph storage implementations: every implementation that can represent an edge
//! set answers all questions; modifications of the writable ones are recorded step by step.
use crate::common::*;
use crate::graphdrv::shape_edges;
use graphannis_core::annostorage::{AnnotationStorage, NodeAnnotationStorage};
use graphannis_core::dfs::CycleSafeDFS;
use graphannis_core::graph::storage::{
    EdgeContainer, GraphStorage, WriteableGraphStorage, adjacencylist::AdjacencyListStorage,
    dense_adjacency::DenseAdjacencyListStorage, disk_adjacency::DiskAdjacencyListStorage,
    disk_path::DiskPathStorage, linear::LinearGraphStorage, prepost::PrePostOrderStorage, registry,
    union::UnionEdgeContainer,
};
use graphannis_core::graph::Graph;
use graphannis_core::types::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
use std::sync::Arc;

type E = (usize, usize);

struct Shape {
    acyclic: bool,
    fan_out_1: bool,
    chains: bool,
    depth: usize,
}
fn shape(n: usize, e: &BTreeSet<E>) -> Shape {
    let mut out = vec![vec![]; n];
    let mut indeg = vec![0usize; n];
    for (a, b) in e {
        out[*a].push(*b);
        indeg[*b] += 1;
    }
    let fan_out_1 = out.iter().all(|o| o.len() <= 1);
    let chains = fan_out_1 && indeg.iter().all(|i| *i <= 1);
    // longest path / cycle test by repeated removal of sources
    let mut d = vec![0usize; n];
    let mut deg = indeg.clone();
    let mut q: Vec<usize> = (0..n).filter(|i| deg[*i] == 0).collect();
    let mut seen = 0;
    let mut depth = 0;
    while let Some(x) = q.pop() {
        seen += 1;
        for y in &out[x] {
            d[*y] = d[*y].max(d[x] + 1);
            depth = depth.max(d[*y]);
            deg[*y] -= 1;
            if deg[*y] == 0 {
                q.push(*y);
            }
        }
    }
    Shape { acyclic: seen == n, fan_out_1, chains: chains && seen == n, depth }
}

fn node_annos(ids: &[NodeID]) -> R<Box<dyn NodeAnnotationStorage>> {
    let mut a = graphannis_core::annostorage::inmemory::AnnoStorageImpl::<NodeID>::new();
    for i in ids {
        a.insert(*i, Annotation {
            key: AnnoKey { ns: "annis".into(), name: "node_name".into() },
            val: format!("n{i}").as_str().into(),
        })?;
    }
    Ok(Box::new(a))
}

const RANGES: &[(usize, i64)] = &[
    // (min, max): -1 unbounded, -k-10: excluded k
    (0, 0), (0, 1), (0, -1), (1, 1), (1, 2), (1, -1), (2, 2), (2, 3), (2, -1), (3, 5), (1, -12), (0, -13), (2, -14), (4, -1), (1, -11), (3, 1),
];
fn bound(x: i64) -> Bound<usize> {
    if x == -1 {
        Bound::Unbounded
    } else if x <= -10 {
        Bound::Excluded((-x - 10) as usize)
    } else {
        Bound::Included(x as usize)
    }
}
/// inclusive maximum for the specification (-1: unbounded)
fn incl(x: i64) -> i64 {
    if x <= -10 { -x - 10 - 1 } else { x }
}

fn collect(it: Box<dyn Iterator<Item = graphannis_core::errors::Result<NodeID>> + '_>, inv: &BTreeMap<NodeID, usize>) -> R<Value> {
    let mut v = vec![];
    for x in it {
        let x = x?;
        v.push(inv.get(&x).map(|i| *i as i64).unwrap_or(-(x as i64) - 1));
    }
    v.sort();
    Ok(json!(v))
}

/// All answers of an edge container
fn ask_edges(gs: &dyn EdgeContainer, ids: &[NodeID], inv: &BTreeMap<NodeID, usize>) -> R<Value> {
    let mut out = vec![];
    let mut inn = vec![];
    let mut has = vec![];
    for (i, id) in ids.iter().enumerate() {
        out.push(json!([i, collect(gs.get_outgoing_edges(*id), inv)?]));
        inn.push(json!([i, collect(gs.get_ingoing_edges(*id), inv)?]));
        has.push(json!([i, gs.has_outgoing_edges(*id)?, gs.has_ingoing_edges(*id)?]));
    }
    Ok(json!({"out": out, "in": inn, "has": has, "src": collect(gs.source_nodes(), inv)?, "root": collect(gs.root_nodes(), inv)?}))
}

fn ask(gs: &dyn GraphStorage, ids: &[NodeID], inv: &BTreeMap<NodeID, usize>, starts: &[usize]) -> R<Value> {
    let mut v = ask_edges(gs.as_edgecontainer(), ids, inv)?;
    let mut fc = vec![];
    let mut fci = vec![];
    let mut dist = vec![];
    let mut ic = vec![];
    for &s in starts {
        for (mn, mx) in RANGES {
            fc.push(json!([s, mn, incl(*mx), collect(gs.find_connected(ids[s], *mn, bound(*mx)), inv)?]));
            fci.push(json!([s, mn, incl(*mx), collect(gs.find_connected_inverse(ids[s], *mn, bound(*mx)), inv)?]));
        }
        for t in 0..ids.len() {
            let d = gs.distance(ids[s], ids[t])?.map(|d| d as i64).unwrap_or(-1);
            dist.push(json!([s, t, d]));
        }
        for (mn, mx) in RANGES {
            let mut ts = vec![];
            for t in 0..ids.len() {
                if gs.is_connected(ids[s], ids[t], *mn, bound(*mx))? {
                    ts.push(t);
                }
            }
            ic.push(json!([s, mn, incl(*mx), ts]));
        }
    }
    let mut labels = vec![];
    for a in 0..ids.len() {
        for b in 0..ids.len() {
            for x in gs.get_anno_storage().get_annotations_for_item(&Edge { source: ids[a], target: ids[b] })? {
                labels.push(json!([a, b, x.key.ns.as_str(), x.key.name.as_str(), x.val.as_str()]));
            }
        }
    }
    let o = v.as_object_mut().unwrap();
    // the path representation leaves the node itself out of distance() and is_connected()
    o.insert("self".into(), json!(!gs.serialization_id().starts_with("DiskPath")));
    o.insert("fc".into(), json!(fc));
    o.insert("fci".into(), json!(fci));
    o.insert("dist".into(), json!(dist));
    o.insert("ic".into(), json!(ic));
    o.insert("labels".into(), json!(labels));
    o.insert("nl".into(), json!(gs.get_anno_storage().number_of_annotations()?));
    Ok(v)
}

fn reload(gs: &dyn GraphStorage) -> R<(Arc<dyn GraphStorage>, tempfile::TempDir)> {
    let d = tempfile::tempdir()?;
    gs.save_to(d.path())?;
    let n = registry::deserialize(&gs.serialization_id(), d.path())?;
    Ok((n, d))
}

struct Acc {
    ev: Vec<Value>,
}
impl Acc {
    /// record an answer; equal answers to the same question set are merged
    fn add(&mut self, kind: &str, by: &str, ans: Result<Value, String>) {
        match ans {
            Ok(a) => {
                for e in self.ev.iter_mut().rev() {
                    if e["e"] == "Graph" || e["e"] == "Change" {
                        break;
                    }
                    if e["e"] == kind && e["a"] == a {
                        e["by"].as_array_mut().unwrap().push(json!(by));
                        return;
                    }
                }
                self.ev.push(json!({"e": kind, "by": [by], "a": a}));
            }
            Err(w) => self.ev.push(json!({"e":"Fail","what":w,"by":[by]})),
        }
    }
}

fn edges_json(e: &BTreeSet<E>) -> Value {
    json!(e.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>())
}

fn labels_for(r: &mut Rng, e: &BTreeSet<E>) -> Vec<(usize, usize, String, String, String)> {
    let mut v = vec![];
    if r.p(50) {
        for x in e {
            for (ns, n) in [("a", "f"), ("b", "f"), ("", "g")] {
                if r.p(30) {
                    v.push((x.0, x.1, ns.into(), n.into(), (*r.pick(&["x", "y", "", "ü"])).into()));
                }
            }
        }
    }
    v
}
fn labels_json(l: &[(usize, usize, String, String, String)]) -> Value {
    json!(l.iter().map(|x| json!([x.0, x.1, x.2, x.3, x.4])).collect::<Vec<_>>())
}

fn all_impls(sh: &Shape, r: &mut Rng) -> Vec<&'static str> {
    let mut v = vec!["adj", "diskadj"];
    if sh.fan_out_1 {
        v.push("dense");
    }
    if sh.chains {
        v.extend(["lin8", "lin16", "lin32", "lin64"]);
        if sh.depth >= 254 {
            v.retain(|x| *x != "lin8");
        }
    }
    if sh.acyclic {
        v.extend(["pp16-8", "pp32-8", "pp64-8", "pp16-32", "pp32-32", "pp64-32", "pp64-64"]);
        if sh.fan_out_1 && sh.depth <= 15 {
            v.push("diskpath");
        }
        if sh.depth >= 254 {
            v.retain(|x| !x.ends_with("-8"));
        }
    }
    let _ = r;
    v
}
fn make(name: &str) -> R<Box<dyn GraphStorage>> {
    Ok(match name {
        "adj" => Box::new(AdjacencyListStorage::new()),
        "diskadj" => Box::new(DiskAdjacencyListStorage::new()?),
        "dense" => Box::new(DenseAdjacencyListStorage::new()),
        "lin8" => Box::new(LinearGraphStorage::<u8>::default()),
        "lin16" => Box::new(LinearGraphStorage::<u16>::default()),
        "lin32" => Box::new(LinearGraphStorage::<u32>::default()),
        "lin64" => Box::new(LinearGraphStorage::<u64>::default()),
        "pp16-8" => Box::new(PrePostOrderStorage::<u16, u8>::default()),
        "pp32-8" => Box::new(PrePostOrderStorage::<u32, u8>::default()),
        "pp64-8" => Box::new(PrePostOrderStorage::<u64, u8>::default()),
        "pp16-32" => Box::new(PrePostOrderStorage::<u16, u32>::default()),
        "pp32-32" => Box::new(PrePostOrderStorage::<u32, u32>::default()),
        "pp64-32" => Box::new(PrePostOrderStorage::<u64, u32>::default()),
        "pp64-64" => Box::new(PrePostOrderStorage::<u64, u64>::default()),
        "diskpath" => Box::new(DiskPathStorage::new()?),
        _ => return Err("unknown".into()),
    })
}

fn ids_for(r: &mut Rng, n: usize) -> Vec<NodeID> {
    let gap = r.p(40);
    let mut v = vec![];
    let mut x = if r.p(30) { r.range(0, 5) as u64 } else { 0 };
    for _ in 0..n {
        v.push(x);
        x += 1 + if gap { r.range(0, 3) as u64 } else { 0 };
    }
    if r.p(50) {
        r.shuffle(&mut v);
    }
    v
}

/// conversions of one edge set into every fitting implementation
fn convert(acc: &mut Acc, r: &mut Rng, n: usize, e: &BTreeSet<E>, long: bool) -> R<()> {
    let ids = ids_for(r, n);
    let inv: BTreeMap<NodeID, usize> = ids.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    let na = node_annos(&ids)?;
    let labels = labels_for(r, e);
    acc.ev.push(json!({"e":"Graph","n":n,"edges":edges_json(e),"labels":labels_json(&labels)}));
    let starts: Vec<usize> = if long {
        vec![0, n / 2, n - 1, r.n(n)]
    } else {
        (0..n).collect()
    };
    let fill = |w: &mut dyn WriteableGraphStorage| -> R<()> {
        let mut order: Vec<E> = e.iter().copied().collect();
        let mut rr = Rng::new(n as u64);
        rr.shuffle(&mut order);
        for (a, b) in order {
            w.add_edge(Edge { source: ids[a], target: ids[b] })?;
        }
        for l in &labels {
            w.add_edge_annotation(
                Edge { source: ids[l.0], target: ids[l.1] },
                Annotation { key: AnnoKey { ns: l.2.as_str().into(), name: l.3.as_str().into() }, val: l.4.as_str().into() },
            )?;
        }
        w.calculate_statistics()?;
        Ok(())
    };
    let mut mem = AdjacencyListStorage::new();
    let mut disk = DiskAdjacencyListStorage::new()?;
    if let Err(w) = guarded(|| fill(&mut mem)) {
        acc.add("Answer", "fill adj", Err(w));
        return Ok(());
    }
    if let Err(w) = guarded(|| fill(&mut disk)) {
        acc.add("Answer", "fill diskadj", Err(w));
        return Ok(());
    }
    let sh = shape(n, e);
    // statistics must not contradict the shape
    for (w, s) in [("adj", mem.get_statistics()), ("diskadj", disk.get_statistics())] {
        if let Some(s) = s {
            acc.add("Stat", w, Ok(json!({"cyclic": s.cyclic, "tree": s.rooted_tree, "nodes": s.nodes,
                "maxfan": s.max_fan_out, "depth": s.max_depth, "roots": s.root_nodes})));
        }
    }
    // what the heuristic would choose for memory and for disk must fit as well
    for (disk_based, stats) in [(false, mem.get_statistics()), (true, disk.get_statistics())] {
        let Some(stats) = stats else { continue };
        let res = guarded(|| {
            let g = Graph::<DefaultComponentType>::with_default_graphstorages(disk_based)?;
            let info = registry::get_optimal_impl_heuristic(&g, stats);
            let mut gs = registry::create_from_info(&info)?;
            let gm = Arc::get_mut(&mut gs).ok_or("shared")?;
            gm.copy(na.as_ref(), &mem)?;
            ask(gs.as_ref(), &ids, &inv, &starts)
        });
        acc.add("Answer", &format!("chosen for {}", if disk_based { "disk" } else { "memory" }), res);
    }
    let mut impls = all_impls(&sh, r);
    if long {
        impls.retain(|x| *x != "diskadj" );
    }
    let mut last: Option<Box<dyn GraphStorage>> = None;
    for name in impls {
        let from_disk = r.p(20);
        let res = guarded(|| {
            let mut gs = make(name)?;
            if r.p(15) {
                // overwrite earlier content
                let mut other = AdjacencyListStorage::new();
                other.add_edge(Edge { source: ids[0], target: ids[n - 1] })?;
                other.add_edge_annotation(Edge { source: ids[0], target: ids[n - 1] },
                    Annotation { key: AnnoKey { ns: "o".into(), name: "o".into() }, val: "o".into() })?;
                other.calculate_statistics()?;
                gs.copy(na.as_ref(), &other)?;
            }
            if from_disk {
                gs.copy(na.as_ref(), &disk)?;
            } else if let (Some(l), true) = (&last, r.p(30)) {
                gs.copy(na.as_ref(), l.as_ref())?;
            } else {
                gs.copy(na.as_ref(), &mem)?;
            }
            Ok(gs)
        });
        match res {
            Ok(gs) => {
                acc.add("Answer", name, guarded(|| ask(gs.as_ref(), &ids, &inv, &starts)));
                if r.p(60) {
                    match guarded(|| reload(gs.as_ref())) {
                        Ok((g2, _d)) => {
                            acc.add("Answer", &format!("{name}/reloaded"), guarded(|| ask(g2.as_ref(), &ids, &inv, &starts)));
                            if r.p(50) {
                                // and back to a writable one
                                acc.add("Answer", &format!("{name}/reloaded/adj"), guarded(|| {
                                    let mut b = AdjacencyListStorage::new();
                                    b.copy(na.as_ref(), g2.as_ref())?;
                                    ask(&b, &ids, &inv, &starts)
                                }));
                            }
                        }
                        Err(w) => acc.add("Answer", &format!("{name}/reload"), Err(w)),
                    }
                }
                last = Some(gs);
            }
            Err(w) => acc.add("Answer", name, Err(w)),
        }
    }
    // union of two containers and plain depth first search on it
    if !long {
        let ans = guarded(|| {
            let mut a = AdjacencyListStorage::new();
            let mut b = DiskAdjacencyListStorage::new()?;
            for (i, (x, y)) in e.iter().enumerate() {
                let ed = Edge { source: ids[*x], target: ids[*y] };
                if i % 3 != 0 {
                    a.add_edge(ed.clone())?;
                }
                if i % 3 != 1 {
                    b.add_edge(ed)?;
                }
            }
            let u = UnionEdgeContainer::new(vec![a.as_edgecontainer(), b.as_edgecontainer()]);
            let mut v = ask_edges(&u, &ids, &inv)?;
            let mut fc = vec![];
            let mut fci = vec![];
            for s in 0..n {
                for (mn, mx) in [(0, usize::MAX), (1, 2), (2, usize::MAX), (1, 1), (0, 0)] {
                    let mut f = BTreeSet::new();
                    for x in CycleSafeDFS::new(&u, ids[s], mn, mx) {
                        f.insert(inv[&x?.node]);
                    }
                    let mut g = BTreeSet::new();
                    for x in CycleSafeDFS::new_inverse(&u, ids[s], mn, mx) {
                        g.insert(inv[&x?.node]);
                    }
                    let m = if mx == usize::MAX { -1 } else { mx as i64 };
                    fc.push(json!([s, mn, m, f]));
                    fci.push(json!([s, mn, m, g]));
                }
            }
            v["fc"] = json!(fc);
            v["fci"] = json!(fci);
            Ok(v)
        });
        acc.add("Union", "union", ans);
    }
    Ok(())
}

/// step by step modifications of the writable implementations
fn modify(acc: &mut Acc, r: &mut Rng, n: usize) -> R<()> {
    let ids = ids_for(r, n);
    let inv: BTreeMap<NodeID, usize> = ids.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    let na = node_annos(&ids)?;
    acc.ev.push(json!({"e":"Graph","n":n,"edges":[],"labels":[]}));
    let mut gs: Vec<(&str, Box<dyn GraphStorage>)> = vec![("adj", make("adj")?), ("diskadj", make("diskadj")?)];
    let mut edges: BTreeSet<E> = BTreeSet::new();
    let steps = r.range(3, 12);
    let all: Vec<usize> = (0..n).collect();
    for _ in 0..steps {
        let k = r.n(100);
        let pick_edge = |r: &mut Rng| -> E {
            let v: Vec<E> = edges.iter().copied().collect();
            if !v.is_empty() && r.p(80) { *r.pick(&v) } else { (r.n(n), r.n(n)) }
        };
        let mut op: Vec<Value> = vec![];
        let mut todo: Vec<(String, E, String, String)> = vec![];
        let cnt = if r.p(30) { r.range(2, 5) } else { 1 };
        for _ in 0..cnt {
            if k < 45 {
                let e = (r.n(n), r.n(n));
                todo.push(("AE".into(), e, String::new(), String::new()));
            } else if k < 60 {
                todo.push(("AL".into(), pick_edge(r), (*r.pick(&["f", "g"])).into(), (*r.pick(&["x", "y", ""])).into()));
            } else if k < 72 {
                todo.push(("DE".into(), pick_edge(r), String::new(), String::new()));
            } else if k < 82 {
                todo.push(("DL".into(), pick_edge(r), (*r.pick(&["f", "g"])).into(), String::new()));
            } else if k < 95 {
                todo.push(("DN".into(), (r.n(n), 0), String::new(), String::new()));
            } else if k < 97 {
                todo.push(("CLR".into(), (0, 0), String::new(), String::new()));
            } else {
                todo.push(("ST".into(), (0, 0), String::new(), String::new()));
            }
        }
        for (o, e, a, b) in &todo {
            match o.as_str() {
                "AE" => {
                    if e.0 != e.1 {
                        edges.insert(*e);
                    }
                }
                "DE" => {
                    edges.remove(e);
                }
                "DN" => edges.retain(|x| x.0 != e.0 && x.1 != e.0),
                "CLR" => edges.clear(),
                _ => {}
            }
            op.push(json!([o, e.0, e.1, a, b]));
        }
        acc.ev.push(json!({"e":"Change","ops":op}));
        for (name, g) in gs.iter_mut() {
            let res = guarded(|| {
                let w = g.as_writeable().ok_or("not writable")?;
                for (o, e, a, b) in &todo {
                    let ed = Edge { source: ids[e.0], target: ids[e.1] };
                    let key = AnnoKey { ns: "n".into(), name: a.as_str().into() };
                    match o.as_str() {
                        "AE" => w.add_edge(ed)?,
                        "AL" => w.add_edge_annotation(ed, Annotation { key, val: b.as_str().into() })?,
                        "DE" => w.delete_edge(&ed)?,
                        "DL" => w.delete_edge_annotation(&ed, &key)?,
                        "DN" => w.delete_node(ids[e.0])?,
                        "CLR" => w.clear()?,
                        _ => w.calculate_statistics()?,
                    }
                }
                Ok(())
            });
            match res {
                Ok(()) => {
                    let ans = guarded(|| ask(g.as_ref(), &ids, &inv, &all));
                    acc.add("Answer", name, ans);
                    if r.p(25) {
                        let res = guarded(|| {
                            let (g2, d) = reload(g.as_ref())?;
                            let v = ask(g2.as_ref(), &ids, &inv, &all)?;
                            // continue with the loaded one (as a writable copy)
                            let mut w = make(name)?;
                            w.copy(na.as_ref(), g2.as_ref())?;
                            drop(g2);
                            drop(d);
                            Ok((v, w))
                        });
                        match res {
                            Ok((v, w)) => {
                                acc.add("Answer", &format!("{name}/reloaded"), Ok(v));
                                *g = w;
                            }
                            Err(w) => acc.add("Answer", &format!("{name}/reload"), Err(w)),
                        }
                    }
                }
                Err(w) => acc.add("Answer", name, Err(w)),
            }
        }
    }
    Ok(())
}

/// a tree or chain that is larger than the small integer types; only some questions are asked
fn huge(acc: &mut Acc, r: &mut Rng) -> R<(usize, usize, bool)> {
    let k = *r.pick(&[1usize, 2, 2, 3, 10, 200, 50000]);
    let n = if k == 1 {
        *r.pick(&[32767usize, 65534, 65535, 65536, 65537, 66000])
    } else {
        *r.pick(&[32765usize, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537])
    };
    let up = r.p(40);
    let ids: Vec<NodeID> = (0..n as u64).collect();
    let inv: BTreeMap<NodeID, usize> = ids.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    let na = node_annos(&ids)?;
    let mut mem = AdjacencyListStorage::new();
    for i in 1..n {
        let (p, c) = (((i - 1) / k) as u64, i as u64);
        mem.add_edge(if up { Edge { source: c, target: p } } else { Edge { source: p, target: c } })?;
    }
    mem.calculate_statistics()?;
    let mut nodes = vec![0, 1, n / 2, n - 2, n - 1];
    nodes.extend((0..4).map(|_| r.n(n)));
    nodes.extend([32766, 32767, 32768].iter().filter(|x| **x < n));
    nodes.sort();
    nodes.dedup();
    let few: Vec<usize> = vec![0, nodes[1], nodes[nodes.len() / 2], n - 1, r.n(n)];
    let ask = |gs: &dyn GraphStorage| -> R<Value> {
        let (mut out, mut inn, mut fc, mut fci, mut dist, mut ic) = (vec![], vec![], vec![], vec![], vec![], vec![]);
        for &s in &nodes {
            out.push(json!([s, collect(gs.get_outgoing_edges(ids[s]), &inv)?]));
            inn.push(json!([s, collect(gs.get_ingoing_edges(ids[s]), &inv)?]));
            for &t in &nodes {
                dist.push(json!([s, t, gs.distance(ids[s], ids[t])?.map(|d| d as i64).unwrap_or(-1)]));
                for (mn, mx) in [(1, 1), (1, -1), (2, 300), (1, 65534), (0, 32767)] {
                    ic.push(json!([s, mn, mx, t, gs.is_connected(ids[s], ids[t], mn, bound(mx))?]));
                }
            }
        }
        for &s in &few {
            for (mn, mx) in [(1, 1), (1, -1), (0, 2), (2, 300), (254, 257), (32766, 32769), (65534, 65536)] {
                fc.push(json!([s, mn, mx, collect(gs.find_connected(ids[s], mn, bound(mx)), &inv)?]));
                fci.push(json!([s, mn, mx, collect(gs.find_connected_inverse(ids[s], mn, bound(mx)), &inv)?]));
            }
        }
        let nsrc = gs.source_nodes().count();
        Ok(json!({"out": out, "in": inn, "fc": fc, "fci": fci, "dist": dist, "ic": ic, "nsrc": nsrc,
            "self": !gs.serialization_id().starts_with("DiskPath")}))
    };
    acc.add("Huge", "adj", guarded(|| ask(&mem)));
    let mut todo: Vec<(String, Option<&str>)> = vec![("memory".into(), None), ("disk".into(), None)];
    let more: &[&str] = if k == 1 { &["lin32", "lin64", "dense"] } else if up { &["dense"] } else { &["pp32-32", "pp64-64"] };
    todo.push((String::new(), Some(*r.pick(more))));
    for (w, name) in todo {
        let res = guarded(|| {
            let mut gs: Arc<dyn GraphStorage> = match name {
                Some(n) => Arc::from(make(n)?),
                None => {
                    let mut g = Graph::<DefaultComponentType>::with_default_graphstorages(w == "disk")?;
                    let key = AnnoKey { ns: "annis".into(), name: "node_name".into() };
                    g.get_node_annos_mut().insert((n - 1) as u64, Annotation { key, val: "last".into() })?;
                    let info = registry::get_optimal_impl_heuristic(&g, mem.get_statistics().ok_or("no statistics")?);
                    registry::create_from_info(&info)?
                }
            };
            Arc::get_mut(&mut gs).ok_or("shared")?.copy(na.as_ref(), &mem)?;
            Ok(gs)
        });
        let id = |gs: &Arc<dyn GraphStorage>| format!("{w} {}", gs.serialization_id());
        match res {
            Ok(gs) => {
                acc.add("Huge", &id(&gs), guarded(|| ask(gs.as_ref())));
                if r.p(50) {
                    acc.add("Huge", &format!("{} reloaded", id(&gs)), guarded(|| {
                        let (g2, _d) = reload(gs.as_ref())?;
                        ask(g2.as_ref())
                    }));
                }
            }
            Err(e) => acc.add("Huge", &w, Err(e)),
        }
    }
    Ok((n, k, up))
}

fn dedup_failures(ev: Vec<Value>) -> Vec<Value> {
    ev
}

pub fn run(a: &Args) -> R<()> {
    let mut out = Out::create(&a.s("out", "/dev/stdout"))?;
    let seed = a.u("seed", 1);
    let n = a.u("n", 50);
    let profile = a.s("profile", "convert");
    let shard = a.u("shard", 0);
    let shards = a.u("shards", 1);
    if profile == "exhaustive" {
        // every edge set over `nodes` nodes (no loops)
        let nn = a.u("nodes", 3) as usize;
        let pairs: Vec<E> = (0..nn).flat_map(|x| (0..nn).map(move |y| (x, y))).filter(|p| p.0 != p.1).collect();
        for m in 0..(1u64 << pairs.len()) {
            if m % shards != shard {
                continue;
            }
            let mut r = Rng::new(m);
            let e: BTreeSet<E> = pairs.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect();
            let mut acc = Acc { ev: vec![] };
            convert(&mut acc, &mut r, nn, &e, false)?;
            out.line(&json!({"id": m, "ev": dedup_failures(acc.ev)}))?;
        }
        return Ok(());
    }
    for i in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003) + i);
        let mut acc = Acc { ev: vec![] };
        match profile.as_str() {
            "huge" => {
                let (n, k, up) = huge(&mut acc, &mut r)?;
                out.line(&json!({"id": seed.wrapping_mul(1_000_003) + i, "n": n, "k": k, "up": up, "ev": acc.ev}))?;
                continue;
            }
            "long" => {
                // chains and trees beyond the small integer types; almost-trees
                let k = r.n(3);
                let nn = if k == 2 { r.range(34, 60) } else if r.p(50) { r.range(253, 259) } else { r.range(250, 300) };
                let mut e = BTreeSet::new();
                match k {
                    0 => {
                        let cut = if r.p(30) { r.n(nn) } else { nn };
                        for x in 0..nn - 1 {
                            if x != cut {
                                e.insert((x, x + 1));
                            }
                        }
                    }
                    1 => {
                        for x in 1..nn {
                            e.insert((if r.p(80) { x - 1 } else { r.n(x) }, x));
                        }
                    }
                    _ => {
                        for x in 1..nn {
                            e.insert((r.n(x), x));
                        }
                        // one exception from the tree
                        let b = r.range(2, nn - 1);
                        let a = r.n(b);
                        e.insert((a, b));
                    }
                }
                convert(&mut acc, &mut r, nn, &e, true)?;
            }
            "modify" => {
                let nn = r.range(2, 5);
                modify(&mut acc, &mut r, nn)?;
            }
            _ => {
                let nn = r.range(2, 7);
                let e: BTreeSet<E> = shape_edges(&mut r, nn).into_iter().collect();
                convert(&mut acc, &mut r, nn, &e, false)?;
            }
        }
        out.line(&json!({"id": seed.wrapping_mul(1_000_003) + i, "ev": dedup_failures(acc.ev)}))?;
    }
    Ok(())
}
