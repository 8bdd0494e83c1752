//! Driver for AnnotationGraph: random and exhaustive update histories with optimizations,
//! reloads and conversions in between.  Every event carries the projection of the real graph.
use crate::common::*;
use graphannis::AnnotationGraph;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

pub struct Names {
    pub nodes: Vec<String>,
    pub labels: Vec<(String, String)>,
    pub vals: Vec<String>,
    pub comps: Vec<Comp>,
    pub types: Vec<String>,
}

pub fn names(r: &mut Rng, odd: bool) -> Names {
    let mut nodes: Vec<String> = ["c/d#n1", "c/d#n2", "c/d#n3", "c/d#n4", "c/d", "c"]
        .iter().map(|s| s.to_string()).collect();
    if odd {
        nodes = ["a", "A", "a ", "", "ä", "日本/x#1"].iter().map(|s| s.to_string()).collect();
    }
    if r.p(50) {
        nodes.truncate(3);
    }
    let mut labels: Vec<(String, String)> = [("ns", "pos"), ("", "pos"), ("ns", "lemma"), ("annis", "tok")]
        .iter().map(|s| (s.0.into(), s.1.into())).collect();
    if odd {
        labels.push(("ns:x".into(), "ü b".into()));
    }
    let mut comps = vec![
        comp("Pointing", "l", "dep"),
        comp("Pointing", "", ""),
        comp("Dominance", "", ""),
        comp("Dominance", "l", "edge"),
        comp("Coverage", "annis", ""),
        comp("Coverage", "x", "named"),
        comp("Ordering", "annis", ""),
        comp("Ordering", "default_ns", "seg"),
        comp("PartOf", "annis", ""),
    ];
    if r.p(60) {
        r.shuffle(&mut comps);
        let k = r.range(1, 4);
        comps.truncate(k);
    }
    Names {
        nodes,
        labels,
        vals: ["x", "y", "", "Ünï 'q'"].iter().map(|s| s.to_string()).collect(),
        comps,
        types: vec!["node".into(), "corpus".into(), "datasource".into()],
    }
}

/// A rough mirror, only used to steer the generator towards existing things.
#[derive(Default, Clone)]
pub struct Mirror {
    pub nodes: BTreeSet<String>,
    pub edges: BTreeSet<(String, String, Comp)>,
    pub elabels: BTreeSet<(String, String, Comp, String, String)>,
}
impl Mirror {
    pub fn apply(&mut self, o: &Op) {
        match o {
            Op::AN(n, _) => {
                self.nodes.insert(n.clone());
            }
            Op::DN(n) => {
                self.nodes.remove(n);
                self.edges.retain(|e| &e.0 != n && &e.1 != n);
                self.elabels.retain(|e| &e.0 != n && &e.1 != n);
            }
            Op::AE(s, t, c) => {
                if s != t && self.nodes.contains(s) && self.nodes.contains(t) {
                    self.edges.insert((s.clone(), t.clone(), c.clone()));
                }
            }
            Op::DE(s, t, c) => {
                self.edges.remove(&(s.clone(), t.clone(), c.clone()));
            }
            Op::AEL(s, t, c, a, b, _) => {
                self.elabels.insert((s.clone(), t.clone(), c.clone(), a.clone(), b.clone()));
            }
            Op::DEL(s, t, c, a, b) => {
                self.elabels.remove(&(s.clone(), t.clone(), c.clone(), a.clone(), b.clone()));
            }
            _ => {}
        }
    }
}

pub fn gen_op(r: &mut Rng, n: &Names, m: &Mirror, del_bias: usize, allow_absent: bool) -> Op {
    let live: Vec<&String> = m.nodes.iter().collect();
    let node = |r: &mut Rng| -> String {
        if !live.is_empty() && (r.p(92) || !allow_absent) {
            (*r.pick(&live)).clone()
        } else {
            r.pick(&n.nodes).clone()
        }
    };
    let edges: Vec<&(String, String, Comp)> = m.edges.iter().collect();
    let k = r.n(100);
    if live.len() < 2 || k < 14 {
        return Op::AN(r.pick(&n.nodes).clone(), r.pick(&n.types).clone());
    }
    if k < 14 + del_bias {
        return Op::DN(node(r));
    }
    let k = r.n(100);
    let edge = |r: &mut Rng| -> (String, String, Comp) {
        if !edges.is_empty() && r.p(85) {
            (*r.pick(&edges)).clone()
        } else {
            (node(r), node(r), r.pick(&n.comps).clone())
        }
    };
    if k < 18 {
        let l = r.pick(&n.labels).clone();
        Op::AL(node(r), l.0, l.1, r.pick(&n.vals).clone())
    } else if k < 26 {
        let l = r.pick(&n.labels).clone();
        Op::DL(node(r), l.0, l.1)
    } else if k < 62 {
        Op::AE(node(r), node(r), r.pick(&n.comps).clone())
    } else if k < 72 {
        let e = edge(r);
        Op::DE(e.0, e.1, e.2)
    } else if k < 90 {
        let e = edge(r);
        let l = r.pick(&n.labels).clone();
        Op::AEL(e.0, e.1, e.2, l.0, l.1, r.pick(&n.vals).clone())
    } else {
        let ex: Vec<_> = m.elabels.iter().collect();
        if !ex.is_empty() && r.p(80) {
            let e = (*r.pick(&ex)).clone();
            Op::DEL(e.0, e.1, e.2, e.3, e.4)
        } else {
            let e = edge(r);
            let l = r.pick(&n.labels).clone();
            Op::DEL(e.0, e.1, e.2, l.0, l.1)
        }
    }
}

// ------------------------------------------------------------------ text structured histories
#[derive(Default)]
pub struct TextGen {
    texts: Vec<Vec<String>>,
    spans: BTreeMap<String, (usize, BTreeMap<(String, Comp), ()>)>,
    structs: BTreeMap<String, (usize, usize, BTreeMap<(String, Comp), ()>)>,
    next: usize,
    freed: Vec<String>,
    reuse: bool,
    untok: BTreeSet<String>,
}
fn ord() -> Comp {
    comp("Ordering", "annis", "")
}
impl TextGen {
    fn fresh(&mut self, r: &mut Rng, p: &str) -> String {
        if self.reuse && !self.freed.is_empty() && r.p(60) {
            let i = r.n(self.freed.len());
            return self.freed.swap_remove(i);
        }
        self.next += 1;
        format!("{p}{}", self.next)
    }
    fn cov_comp(r: &mut Rng) -> Comp {
        let v = [comp("Coverage", "annis", ""), comp("Coverage", "x", ""), comp("Coverage", "x", "named")];
        r.pick(&v).clone()
    }
    fn dom_comp(r: &mut Rng) -> Comp {
        let v = [comp("Dominance", "d", ""), comp("Dominance", "d", "edge"), comp("Dominance", "e", "sec")];
        r.pick(&v).clone()
    }
    pub fn step(&mut self, r: &mut Rng, out: &mut Vec<Op>) {
        if self.texts.is_empty() || (self.texts.len() < 2 && r.p(10)) {
            self.texts.push(vec![]);
        }
        let ti = r.n(self.texts.len());
        let k = r.n(100);
        let total: usize = self.texts.iter().map(|t| t.len()).sum();
        if self.texts[ti].len() < 2 || (k < 16 && total < 7) {
            let n = self.fresh(r, "t");
            let pos = r.n(self.texts[ti].len() + 1);
            out.push(Op::AN(n.clone(), "node".into()));
            let mut rest = vec![];
            rest.push(Op::AL(n.clone(), "annis".into(), "tok".into(), "w".into()));
            let t = &self.texts[ti];
            let prev = if pos > 0 { t.get(pos - 1).cloned() } else { None };
            let nxt = t.get(pos).cloned();
            if let (Some(p), Some(q)) = (&prev, &nxt) {
                rest.push(Op::DE(p.clone(), q.clone(), ord()));
            }
            if let Some(p) = &prev {
                rest.push(Op::AE(p.clone(), n.clone(), ord()));
            }
            if let Some(q) = &nxt {
                rest.push(Op::AE(n.clone(), q.clone(), ord()));
            }
            if r.p(30) {
                r.shuffle(&mut rest);
            }
            out.extend(rest);
            self.texts[ti].insert(pos, n);
        } else if k < 24 && total > 2 {
            // delete a token
            if self.texts[ti].is_empty() {
                return;
            }
            let pos = r.n(self.texts[ti].len());
            let n = self.texts[ti].remove(pos);
            let prev = if pos > 0 { self.texts[ti].get(pos - 1).cloned() } else { None };
            let nxt = self.texts[ti].get(pos).cloned();
            let mut rest = vec![Op::DN(n.clone())];
            if let (Some(p), Some(q)) = (prev, nxt) {
                rest.push(Op::AE(p, q, ord()));
            }
            if r.p(50) {
                rest.reverse();
            }
            out.extend(rest);
            for s in self.spans.values_mut() {
                s.1.retain(|k, _| k.0 != n);
            }
            for s in self.structs.values_mut() {
                s.2.retain(|k, _| k.0 != n);
            }
            self.untok.remove(&n);
            self.freed.push(n);
        } else if k < 38 && self.spans.len() < 4 {
            let n = self.fresh(r, "s");
            out.push(Op::AN(n.clone(), "node".into()));
            let mut m = BTreeMap::new();
            let cnt = r.range(1, 3);
            for _ in 0..cnt {
                let t = r.pick(&self.texts[ti]).clone();
                let c = Self::cov_comp(r);
                out.push(Op::AE(n.clone(), t.clone(), c.clone()));
                m.insert((t, c), ());
            }
            if r.p(25) {
                out.push(Op::AL(n.clone(), "annis".into(), "tok".into(), "seg".into()));
            }
            self.spans.insert(n, (ti, m));
        } else if k < 52 && self.structs.len() < 4 {
            let n = self.fresh(r, "c");
            let lvl = self.structs.values().map(|s| s.1).max().unwrap_or(0) + 1;
            out.push(Op::AN(n.clone(), "node".into()));
            let cands = self.dom_cands(ti, lvl);
            let mut m = BTreeMap::new();
            for _ in 0..r.range(1, 3) {
                let t = r.pick(&cands).clone();
                let c = Self::dom_comp(r);
                out.push(Op::AE(n.clone(), t.clone(), c.clone()));
                m.insert((t, c), ());
            }
            self.structs.insert(n, (ti, lvl, m));
        } else if k < 64 && !self.spans.is_empty() {
            let keys: Vec<String> = self.spans.keys().cloned().collect();
            let n = r.pick(&keys).clone();
            let (sti, m) = self.spans.get_mut(&n).unwrap();
            if r.p(45) && !m.is_empty() {
                let ks: Vec<_> = m.keys().cloned().collect();
                let (t, c) = r.pick(&ks).clone();
                m.remove(&(t.clone(), c.clone()));
                out.push(Op::DE(n, t, c));
            } else if !self.texts[*sti].is_empty() {
                let t = r.pick(&self.texts[*sti]).clone();
                let c = Self::cov_comp(r);
                m.insert((t.clone(), c.clone()), ());
                out.push(Op::AE(n, t, c));
            }
        } else if k < 76 && !self.structs.is_empty() {
            let keys: Vec<String> = self.structs.keys().cloned().collect();
            let n = r.pick(&keys).clone();
            let (sti, lvl, m) = self.structs.get(&n).cloned().unwrap();
            if r.p(45) && !m.is_empty() {
                let ks: Vec<_> = m.keys().cloned().collect();
                let (t, c) = r.pick(&ks).clone();
                self.structs.get_mut(&n).unwrap().2.remove(&(t.clone(), c.clone()));
                out.push(Op::DE(n, t, c));
            } else {
                let cands = self.dom_cands(sti, lvl);
                if !cands.is_empty() {
                    let t = r.pick(&cands).clone();
                    let c = Self::dom_comp(r);
                    self.structs.get_mut(&n).unwrap().2.insert((t.clone(), c.clone()), ());
                    out.push(Op::AE(n, t, c));
                }
            }
        } else if k < 84 {
            // delete span or struct
            let mut keys: Vec<String> = self.spans.keys().cloned().collect();
            keys.extend(self.structs.keys().cloned());
            if keys.is_empty() {
                return;
            }
            let n = r.pick(&keys).clone();
            self.spans.remove(&n);
            self.structs.remove(&n);
            for s in self.structs.values_mut() {
                s.2.retain(|k, _| k.0 != n);
            }
            out.push(Op::DN(n.clone()));
            self.freed.push(n);
        } else if k < 93 && self.texts[ti].len() > 1 {
            // exchange two neighbouring tokens
            let i = r.n(self.texts[ti].len() - 1);
            let old = self.texts[ti].clone();
            self.texts[ti].swap(i, i + 1);
            let new = &self.texts[ti];
            let pairs = |t: &Vec<String>| -> BTreeSet<(String, String)> {
                t.windows(2).map(|w| (w[0].clone(), w[1].clone())).collect()
            };
            let (a, b) = (pairs(&old), pairs(new));
            for (x, y) in a.difference(&b) {
                out.push(Op::DE(x.clone(), y.clone(), ord()));
            }
            for (x, y) in b.difference(&a) {
                out.push(Op::AE(x.clone(), y.clone(), ord()));
            }
        } else {
            // toggle the token label
            let t = r.pick(&self.texts[ti]).clone();
            if self.untok.remove(&t) {
                out.push(Op::AL(t, "annis".into(), "tok".into(), "w2".into()));
            } else {
                out.push(Op::DL(t.clone(), "annis".into(), "tok".into()));
                self.untok.insert(t);
            }
        }
    }
    fn dom_cands(&self, ti: usize, lvl: usize) -> Vec<String> {
        let mut v: Vec<String> = self.texts[ti].clone();
        v.extend(self.spans.iter().filter(|s| s.1.0 == ti).map(|s| s.0.clone()));
        v.extend(self.structs.iter().filter(|s| s.1.0 == ti && s.1.1 < lvl).map(|s| s.0.clone()));
        v
    }
}

// ------------------------------------------------------------------ shapes
/// Edges of a component with a shape that makes a special representation likely.
pub fn shape_edges(r: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    let mut e: Vec<(usize, usize)> = vec![];
    let mut perm: Vec<usize> = (0..n).collect();
    r.shuffle(&mut perm);
    let kinds = r.range(1, 2);
    for _ in 0..kinds {
        match r.n(10) {
            0 | 1 => {
                // chains
                let k = r.range(1, 3);
                for w in 0..n.saturating_sub(1) {
                    if w % (n / k + 1) != n / k {
                        e.push((perm[w], perm[w + 1]));
                    }
                }
            }
            2 | 3 => {
                // tree / forest, child -> parent or parent -> child
                let up = r.p(50);
                for i in 1..n {
                    if r.p(85) {
                        let j = r.n(i);
                        e.push(if up { (perm[i], perm[j]) } else { (perm[j], perm[i]) });
                    }
                }
            }
            4 | 5 => {
                // DAG
                for i in 1..n {
                    for j in 0..i {
                        if r.p(30) {
                            e.push((perm[j], perm[i]));
                        }
                    }
                }
            }
            6 => {
                // star
                let up = r.p(50);
                for i in 1..n {
                    e.push(if up { (perm[i], perm[0]) } else { (perm[0], perm[i]) });
                }
            }
            7 => {
                // one edge or cycle, apart from the rest
                let k = r.range(2, 4).min(n);
                for i in 0..k {
                    e.push((perm[n - k + i], perm[n - k + (i + 1) % k]));
                }
                if n > k + 1 {
                    e.push((perm[0], perm[1]));
                }
            }
            8 => {
                // random, possibly cyclic
                for _ in 0..n + 2 {
                    e.push((r.n(n), r.n(n)));
                }
            }
            _ => {
                // diamond stack
                let mut i = 0;
                while i + 3 < n {
                    e.push((perm[i], perm[i + 1]));
                    e.push((perm[i], perm[i + 2]));
                    e.push((perm[i + 1], perm[i + 3]));
                    e.push((perm[i + 2], perm[i + 3]));
                    i += 3;
                }
            }
        }
    }
    e.retain(|x| x.0 != x.1);
    let mut seen = BTreeSet::new();
    e.retain(|x| seen.insert(*x));
    e
}

fn shape_batch(r: &mut Rng, nm: &Names, ops: &mut Vec<Op>) {
    let n = r.range(2, 9);
    let nodes: Vec<String> = (0..n).map(|i| nm.nodes.get(i).cloned().unwrap_or(format!("m{i}"))).collect();
    for x in &nodes {
        ops.push(Op::AN(x.clone(), r.pick(&nm.types).clone()));
        if r.p(40) {
            let l = r.pick(&nm.labels).clone();
            ops.push(Op::AL(x.clone(), l.0, l.1, r.pick(&nm.vals).clone()));
        }
    }
    for _ in 0..r.range(1, 3) {
        let c = r.pick(&nm.comps).clone();
        let lab = r.p(30);
        for (a, b) in shape_edges(r, n) {
            ops.push(Op::AE(nodes[a].clone(), nodes[b].clone(), c.clone()));
            if lab && r.p(50) {
                let l = r.pick(&nm.labels).clone();
                ops.push(Op::AEL(nodes[a].clone(), nodes[b].clone(), c.clone(), l.0, l.1, r.pick(&nm.vals).clone()));
            }
        }
    }
}

// ------------------------------------------------------------------ executing histories
pub struct Exec {
    pub g: AnnotationGraph,
    pub dirs: Vec<tempfile::TempDir>,
    pub ev: Vec<Value>,
    pub dead: bool,
    pub disk: bool,
}
impl Exec {
    pub fn new(disk: bool) -> R<Exec> {
        Ok(Exec {
            g: AnnotationGraph::with_default_graphstorages(disk)?,
            dirs: vec![],
            ev: vec![],
            dead: false,
            disk,
        })
    }
    fn finish(&mut self, mut v: Value) {
        let g = &self.g;
        match guarded(|| project(g)) {
            Ok(p) => {
                v["st"] = p.json();
            }
            Err(e) => {
                v = json!({"e":"Fail","what":format!("reading the graph: {e}"),"in":v});
                self.dead = true;
            }
        }
        self.ev.push(v);
    }
    fn fail(&mut self, what: String, v: Value) {
        self.ev.push(json!({"e":"Fail","what":what,"in":v}));
        self.dead = true;
    }
    pub fn update(&mut self, ops: &[Op], keep_stat: bool) {
        if self.dead {
            return;
        }
        let v = json!({"e":"Update","us":ops_json(ops),"ok":true,"ks":keep_stat});
        let g = &mut self.g;
        let res = guarded(|| {
            let mut u = to_update(ops)?;
            if keep_stat {
                g.apply_update_keep_statistics(&mut u, |_| {})?;
            } else {
                g.apply_update(&mut u, |_| {})?;
            }
            Ok(())
        });
        match res {
            Ok(()) => self.finish(v),
            Err(e) if e.starts_with("error") => {
                // rejected: a bare graph is not usable afterwards
                self.ev.push(json!({"e":"Rejected","us":ops_json(ops),"what":e}));
                self.dead = true;
            }
            Err(e) => self.fail(e, v),
        }
    }
    pub fn optimize(&mut self, disk: bool) {
        if self.dead {
            return;
        }
        let g = &mut self.g;
        let r = guarded(|| Ok(g.optimize_impl(disk)?));
        let v = json!({"e":"Optimize","disk":disk});
        match r {
            Ok(()) => self.finish(v),
            Err(e) => self.fail(e, v),
        }
    }
    pub fn statistics(&mut self) {
        if self.dead {
            return;
        }
        let g = &mut self.g;
        let r = guarded(|| Ok(g.calculate_all_statistics()?));
        let v = json!({"e":"Statistics"});
        match r {
            Ok(()) => self.finish(v),
            Err(e) => self.fail(e, v),
        }
    }
    /// save to a new directory and continue with a graph opened from there
    pub fn reload(&mut self, import: bool) {
        if self.dead {
            return;
        }
        let v = json!({"e":"Reload","import":import});
        let disk = self.disk;
        let g = &mut self.g;
        let res = guarded(|| {
            let d = tempfile::tempdir()?;
            g.save_to(d.path())?;
            let mut n = AnnotationGraph::new(disk)?;
            if import {
                n.import(d.path())?;
            } else {
                n.open(d.path())?;
                n.ensure_loaded_all()?;
            }
            Ok((n, d))
        });
        match res {
            Ok((n, d)) => {
                self.g = n;
                self.dirs.push(d);
                self.finish(v)
            }
            Err(e) => self.fail(e, v),
        }
    }
}

fn comps_for_clean(n: &Names, ops: &mut Vec<Op>) {
    // self loops are ignored by design; keep a few of them out to not waste changes
    ops.retain(|o| !matches!(o, Op::AE(s,t,_) if s==t));
    let _ = n;
}

/// One random trace. `profile` weights the kinds of steps.
fn random_trace(seed: u64, profile: &str) -> R<Value> {
    let mut r = Rng::new(seed);
    let disk = r.p(40);
    let mut x = Exec::new(disk)?;
    let text = match profile {
        "index" => true,
        "all" | "persist" | "opt" => r.p(35),
        _ => r.p(15),
    };
    let steps = r.range(2, if profile == "index" { 9 } else { 6 });
    let (p_opt, p_reload, p_stat) = match profile {
        "update" => (10, 6, 6),
        "delete" => (25, 15, 5),
        "index" => (8, 8, 4),
        "persist" => (25, 60, 10),
        "opt" => (70, 10, 15),
        _ => (20, 15, 5),
    };
    let del_bias = if profile == "delete" { 22 } else { 7 };
    let odd = r.p(20);
    let nm = names(&mut r, odd);
    let mut m = Mirror::default();
    let mut tg = TextGen { reuse: r.p(50), ..Default::default() };
    let shaped = !text && r.p(match profile { "opt" => 80, "persist" => 60, "delete" => 50, _ => 15 });
    for step in 0..steps {
        if x.dead {
            break;
        }
        let mut ops = vec![];
        if shaped && step == 0 {
            shape_batch(&mut r, &nm, &mut ops);
            for o in &ops {
                m.apply(o);
            }
        } else if text {
            let k = if r.p(30) { r.range(3, 12) } else { r.range(1, 4) };
            for _ in 0..k {
                tg.step(&mut r, &mut ops);
            }
        } else {
            let allow_absent = r.p(10);
            let hi = if r.p(30) { 40 } else { 14 };
            let k = r.range(1, hi);
            for _ in 0..k {
                let o = gen_op(&mut r, &nm, &m, del_bias, allow_absent);
                m.apply(&o);
                ops.push(o);
            }
            if r.p(80) {
                comps_for_clean(&nm, &mut ops);
            }
        }
        let split = r.p(15);
        let ks = r.p(25);
        if split {
            // same changes, divided into several lists
            let mut i = 0;
            while i < ops.len() {
                let j = (i + r.range(1, 5)).min(ops.len());
                x.update(&ops[i..j], ks);
                i = j;
            }
        } else {
            x.update(&ops, ks);
        }
        if r.p(p_stat) {
            x.statistics();
        }
        if r.p(p_opt) {
            x.optimize(if r.p(75) { disk } else { !disk });
        }
        if r.p(p_reload) {
            x.reload(r.p(30));
            if r.p(20) {
                x.reload(false);
            }
        }
    }
    Ok(json!({"id": seed, "disk": disk, "ev": x.ev}))
}

/// All histories of `len` changes over a tiny vocabulary, each as one list and one change per list.
fn exhaustive(out: &mut Out, base: usize, len: usize, shard: u64, shards: u64) -> R<()> {
    let c = comp("Pointing", "l", "dep");
    let d = comp("Coverage", "annis", "");
    let s = |x: &str| x.to_string();
    let mut v = vec![
        Op::AN(s("a"), s("node")), Op::DN(s("a")), Op::DN(s("b")), Op::AN(s("b"), s("node")),
        Op::AL(s("a"), s("ns"), s("l"), s("x")), Op::AL(s("a"), s("ns"), s("l"), s("y")), Op::DL(s("a"), s("ns"), s("l")),
        Op::AE(s("a"), s("b"), c.clone()), Op::AE(s("b"), s("a"), c.clone()), Op::DE(s("a"), s("b"), c.clone()),
        Op::AEL(s("a"), s("b"), c.clone(), s("ns"), s("l"), s("x")),
        Op::AEL(s("a"), s("b"), c.clone(), s("ns"), s("l"), s("y")),
        Op::DEL(s("a"), s("b"), c.clone(), s("ns"), s("l")),
    ];
    if base == 2 {
        v.push(Op::AE(s("a"), s("b"), d.clone()));
        v.push(Op::DE(s("a"), s("b"), d.clone()));
        v.push(Op::AL(s("b"), s("annis"), s("tok"), s("x")));
        v.push(Op::DL(s("b"), s("annis"), s("tok")));
    }
    let pre = vec![
        Op::AN(s("a"), s("node")), Op::AN(s("b"), s("node")), Op::AE(s("a"), s("b"), c.clone()),
        Op::AEL(s("a"), s("b"), c.clone(), s("ns"), s("l"), s("x")),
        Op::AL(s("b"), s("annis"), s("tok"), s("t")),
    ];
    let total = v.len().pow(len as u32) as u64;
    for i in 0..total {
        if i % shards != shard {
            continue;
        }
        let mut k = i;
        let mut ops = vec![];
        for _ in 0..len {
            ops.push(v[(k % v.len() as u64) as usize].clone());
            k /= v.len() as u64;
        }
        for mode in 0..3 {
            // the list extends an existing graph / a list building everything at once / single changes
            let mut x = Exec::new(i % 8 == 7)?;
            match mode {
                0 => {
                    x.update(&pre, false);
                    x.update(&ops, true);
                }
                1 => {
                    let mut a = pre.clone();
                    a.extend(ops.clone());
                    x.update(&a, true);
                }
                _ => {
                    x.update(&pre, true);
                    if i % 3 == 0 {
                        x.optimize(x.disk);
                    }
                    for o in &ops {
                        x.update(std::slice::from_ref(o), true);
                    }
                }
            }
            out.line(&json!({"id": i * 3 + mode, "disk": x.disk, "ev": x.ev}))?;
        }
    }
    Ok(())
}

/// A large corpus, changed a little afterwards
fn bulk_trace(seed: u64, size: usize) -> R<Value> {
    let mut r = Rng::new(seed);
    let disk = seed % 2 == 0;
    let mut x = Exec::new(disk)?;
    let c = comp("Pointing", "l", "dep");
    let s = |x: &str| x.to_string();
    let n = match r.n(4) {
        0 => r.range(1100, 2000.min(size)),
        1 => size * 3,
        _ => size,
    };
    let bulk = |pre: &str, from: usize, to: usize, k: usize, vals: &[&str]| {
        Op::Bulk(Box::new(Bulk {
            pre: s(pre), from, to, ty: s("node"), ns: s("ns"), name: s("l"),
            vals: vals.iter().map(|v| v.to_string()).collect(), comp: c.clone(), k,
        }))
    };
    let k = *r.pick(&[1, 2, 7, 60, n]);
    let cut = r.range(2, n - 1);
    let first = vec![bulk("n", 1, cut, k, &["x", "y", "z"])];
    let second = vec![bulk("n", cut + 1, n, k, &["x", "ö"])];
    if r.p(50) {
        let mut all = first;
        all.extend(second);
        x.update(&all, false);
    } else {
        x.update(&first, r.p(50));
        x.update(&second, r.p(50));
    }
    for _ in 0..r.range(2, 4) {
        if r.p(40) {
            x.optimize(if r.p(75) { disk } else { !disk });
        }
        if r.p(40) {
            x.reload(r.p(30));
        }
        let mut ops = vec![];
        for _ in 0..r.range(1, 12) {
            let a = format!("n{}", r.range(1, n));
            let b = format!("n{}", r.range(1, n));
            let v = s(r.pick(&["x", "q"]));
            match r.n(8) {
                0 | 1 => ops.push(Op::DN(a)),
                2 => ops.push(Op::AN(a, s("corpus"))),
                3 => ops.push(Op::AL(a, s("ns"), s("l"), v)),
                4 => ops.push(Op::DL(a, s("ns"), s("l"))),
                5 => ops.push(Op::AL(a, s("ns"), s("m"), v)),
                6 => {
                    if a != b {
                        ops.push(Op::AE(a.clone(), b.clone(), c.clone()));
                        ops.push(Op::AEL(a, b, c.clone(), s("ns"), s("l"), v));
                    }
                }
                _ => {
                    // an edge of the tree
                    let i = r.range(2, cut);
                    let (a, b) = (format!("n{}", 1 + (i - 2) / k), format!("n{i}"));
                    ops.push(if r.p(50) {
                        Op::DE(a, b, c.clone())
                    } else {
                        Op::DEL(a, b, c.clone(), s("ns"), s("l"))
                    });
                }
            }
        }
        x.update(&ops, r.p(50));
    }
    Ok(json!({"id": seed, "disk": disk, "ev": x.ev}))
}

pub fn run(a: &Args) -> R<()> {
    let mut out = Out::create(&a.s("out", "/dev/stdout"))?;
    let seed = a.u("seed", 1);
    let n = a.u("n", 100);
    let profile = a.s("profile", "all");
    if profile == "exhaustive" {
        return exhaustive(&mut out, a.u("base", 1) as usize, a.u("len", 2) as usize, a.u("shard", 0), a.u("shards", 1));
    }
    if profile == "bulk" {
        for i in 0..n {
            out.line(&bulk_trace(seed.wrapping_mul(1_000_003) + i, a.u("size", 3600) as usize)?)?;
        }
        return Ok(());
    }
    for i in 0..n {
        let v = random_trace(seed.wrapping_mul(1_000_003) + i, &profile)?;
        out.line(&v)?;
    }
    Ok(())
}
