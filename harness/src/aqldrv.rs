//! Driver for queries on annotation graphs.
use crate::common::*;
use crate::corpus::*;
use graphannis::AnnotationGraph;
use graphannis::aql;
use graphannis_core::graph::NODE_NAME_KEY;
use serde_json::{Value, json};

pub fn ask(
    g: &AnnotationGraph,
    text: &str,
    parallel: bool,
    old: bool,
) -> Result<Vec<Vec<(String, String, String)>>, String> {
    guarded(|| {
        let q = aql::parse(text, old)?;
        let mut res = vec![];
        let na = g.get_node_annos();
        for m in aql::execute_query_on_graph(g, &q, parallel, None)? {
            let m = m?;
            let mut t = vec![];
            for x in m.iter() {
                let n = na
                    .get_value_for_item(&x.node, &NODE_NAME_KEY)?
                    .map(|s| s.to_string())
                    .unwrap_or(format!("#{}", x.node));
                t.push((n, x.anno_key.ns.to_string(), x.anno_key.name.to_string()));
            }
            res.push(t);
            if res.len() > 50_000 {
                return Err("more than 50000 results".into());
            }
        }
        Ok(res)
    })
}

pub struct Answers(Vec<(String, Result<Vec<Vec<(String, String, String)>>, String>)>);
impl Answers {
    pub fn new() -> Answers {
        Answers(vec![])
    }
    pub fn add(&mut self, cfg: &str, mut a: Result<Vec<Vec<(String, String, String)>>, String>) {
        if let Ok(x) = &mut a {
            x.sort();
        }
        if let Some(e) = self.0.iter_mut().find(|e| e.1 == a) {
            e.0 += " ";
            e.0 += cfg;
        } else {
            self.0.push((cfg.into(), a));
        }
    }
    pub fn size(&self) -> usize {
        self.0
            .iter()
            .map(|x| x.1.as_ref().map(|v| v.len()).unwrap_or(0))
            .max()
            .unwrap_or(0)
    }
    pub fn json(&self) -> Value {
        self.0
            .iter()
            .map(|(c, a)| match a {
                Ok(r) => json!({"cfg": c, "r": r}),
                Err(e) => json!({"cfg": c, "err": e}),
            })
            .collect()
    }
}

fn variants(
    ops: &[Vec<Op>],
    r: &mut Rng,
) -> R<Vec<(String, AnnotationGraph, Vec<tempfile::TempDir>)>> {
    let mut res = vec![];
    // memory, as updated
    for (name, disk) in [("mem", false), ("disk", true)] {
        let mut g = AnnotationGraph::with_default_graphstorages(disk)?;
        for l in ops {
            g.apply_update(&mut to_update(l)?, |_| {})?;
        }
        res.push((name.to_string(), g, vec![]));
    }
    // optimized, sometimes already between the updates
    for (name, disk) in [("memopt", false), ("diskopt", true)] {
        let mut g = AnnotationGraph::with_default_graphstorages(disk)?;
        let between = r.p(40);
        for (i, l) in ops.iter().enumerate() {
            g.apply_update(&mut to_update(l)?, |_| {})?;
            if between || i + 1 == ops.len() {
                g.optimize_impl(disk)?;
            }
        }
        res.push((name.to_string(), g, vec![]));
    }
    // reloaded without statistics after the last update / with
    {
        let disk = r.p(30);
        let mut g = AnnotationGraph::with_default_graphstorages(disk)?;
        for l in ops {
            g.apply_update(&mut to_update(l)?, |_| {})?;
        }
        if r.p(60) {
            g.optimize_impl(disk)?;
        }
        let d = tempfile::tempdir()?;
        g.save_to(d.path())?;
        let mut n = AnnotationGraph::new(disk)?;
        n.open(d.path())?;
        n.ensure_loaded_all()?;
        res.push(("reload".to_string(), n, vec![d]));
    }
    // only statistics
    {
        let mut g = AnnotationGraph::with_default_graphstorages(false)?;
        for l in ops {
            g.apply_update(&mut to_update(l)?, |_| {})?;
        }
        g.calculate_all_statistics()?;
        res.push(("stat".to_string(), g, vec![]));
    }
    Ok(res)
}

/// the corpus in one or several lists, possibly with a detour of nodes that are deleted again
pub fn history(r: &mut Rng, c: &Corpus) -> Vec<Vec<Op>> {
    let mut ops = c.ops.clone();
    let k = r.range(1, 3);
    let mut res = vec![];
    let mut extra = None;
    if r.p(35) && !c.tokens.is_empty() {
        let n = format!("{}/zz", c.root);
        ops.push(Op::AN(n.clone(), "node".into()));
        ops.push(Op::AL(n.clone(), "".into(), "pos".into(), "NN".into()));
        ops.push(Op::AE(
            n.clone(),
            r.pick(&c.tokens).clone(),
            comp("Coverage", "annis", ""),
        ));
        extra = Some(n);
    }
    for i in 0..k {
        let cut = if i + 1 == k {
            ops.len()
        } else {
            r.n(ops.len() + 1)
        };
        let rest = ops.split_off(cut);
        res.push(ops);
        ops = rest;
    }
    if let Some(n) = extra {
        if r.p(70) {
            res.push(vec![Op::DN(n)]);
        }
    }
    if r.p(25) && !c.nodes.is_empty() {
        // delete a label or an edge
        let l: Vec<&Op> = c
            .ops
            .iter()
            .filter(|o| {
                matches!(o, Op::AL(n, ns, _, _) if ns != "annis" && !n.is_empty())
                    || matches!(o, Op::AE(_, _, c) if c.0 == "Pointing" || c.0 == "PartOf")
            })
            .collect();
        // keep one edge in each component
        let several = |x: &Comp| {
            l.iter()
                .filter(|o| matches!(o, Op::AE(s, t, c) if c == x && s != t))
                .count()
                > 2
        };
        let l: Vec<&Op> = l
            .iter()
            .copied()
            .filter(|o| match o {
                Op::AE(_, _, c) => several(c),
                _ => true,
            })
            .collect();
        if !l.is_empty() {
            let d = match (*r.pick(&l)).clone() {
                Op::AL(n, ns, nm, _) => Op::DL(n, ns, nm),
                Op::AE(s, t, c) => Op::DE(s, t, c),
                o => o,
            };
            res.push(vec![d]);
        }
    }
    res.retain(|l| !l.is_empty());
    res
}

fn trace(seed: u64, profile: &str) -> R<Value> {
    let mut r = Rng::new(seed);
    let forms = profile == "forms";
    let old = profile.starts_with("old");
    let long = profile == "oldlong";
    let o = Opts {
        metadata: old,
        min_tok: if long { 45 } else { 1 },
        max_tok: if long {
            64
        } else if forms {
            r.range(4, 14)
        } else {
            r.range(2, 6)
        },
        discontinuous: profile == "disc" || r.p(35),
        plain_names: r.p(80),
        docs: if long {
            1
        } else if forms {
            4
        } else {
            2
        },
        no_structure: 15,
        seg_across: true,
    };
    let c = Corpus::random(&mut r, "c", o);
    let h = history(&mut r, &c);
    let mut ev = vec![];
    for l in &h {
        ev.push(json!({"e":"Update","us":ops_json(l)}));
    }
    let mut all: Vec<Op> = vec![];
    h.iter().for_each(|l| all.extend(l.iter().cloned()));
    let cp = c.code_points(&all);
    let vs = match guarded(|| variants(&h, &mut r)) {
        Ok(v) => v,
        Err(e) => {
            ev.push(json!({"e":"Fail","what":e}));
            return Ok(json!({"id": seed, "cp": cp, "ev": ev}));
        }
    };
    if forms {
        let q = QOpts {
            max_nodes: 4,
            logic: r.p(50),
            zero: true,
        };
        let mut asked = vec![];
        for _ in 0..r.range(5, 9) {
            let f = query(&mut r, &c, &q);
            let mut texts = vec![Render::new(&mut r).go(&f, true).0];
            for _ in 0..2 {
                let g = rewrite(&mut r, &f);
                texts.push(Render::new(&mut r).go(&g, true).0);
            }
            let mut a = Answers::new();
            for (k, text) in texts.iter().enumerate() {
                for (i, (name, g, _)) in vs.iter().enumerate() {
                    if k > 0 && (i + k) % 3 != 0 {
                        continue;
                    }
                    a.add(&format!("{name}/{k}"), ask(g, text, false, false));
                    a.add(&format!("{name}-par/{k}"), ask(g, text, true, false));
                }
            }
            asked.push((texts, a));
        }
        // again, after all the others
        for (texts, mut a) in asked {
            let (name, g, _) = r.pick(&vs);
            a.add(&format!("{name}/again"), ask(g, &texts[0], r.p(50), false));
            if a.size() <= 1500 {
                ev.push(json!({"e":"Same","text":texts,"ans":a.json()}));
            }
        }
        ev.retain(|e| e["e"] == "Same");
        return Ok(json!({"id": seed, "cp": json!({"": []}), "ev": ev}));
    }
    if old {
        let q = QOpts {
            max_nodes: if long { 2 } else { 3 },
            logic: !long && r.p(60),
            zero: !long,
        };
        for _ in 0..if long { 4 } else { r.range(6, 10) } {
            let f = if long {
                far(&mut r, &c, &q)
            } else {
                old_query_fast(&mut r, &c, &q)
            };
            let (text, j) = Render::new(&mut r).go(&f, true);
            let mut a = Answers::new();
            // planning a query with many operators takes long: not in each configuration
            let conds = text.matches('&').count() + 2 * text.matches('|').count();
            let keep = if conds > 4 {
                35
            } else if conds > 2 {
                60
            } else {
                100
            };
            let first = r.n(vs.len());
            for (i, (name, g, _)) in vs.iter().enumerate() {
                if i == first || r.p(keep) {
                    a.add(name, ask(g, &text, false, true));
                }
                if r.p(keep) {
                    a.add(&format!("{name}-par"), ask(g, &text, true, true));
                }
            }
            if a.size() < 3000 {
                ev.push(json!({"e":"Query","old":true,"text":text,"f":j,"ans":a.json()}));
            }
        }
        return Ok(json!({"id": seed, "cp": cp, "ev": ev}));
    }
    let q = QOpts {
        max_nodes: if r.p(85) { 3 } else { 4 },
        logic: profile == "logic",
        zero: true,
    };
    for _ in 0..r.range(6, 10) {
        let f = query(&mut r, &c, &q);
        let (text, j) = Render::new(&mut r).go(&f, true);
        let mut a = Answers::new();
        for (name, g, _) in &vs {
            a.add(name, ask(g, &text, false, false));
            a.add(&format!("{name}-par"), ask(g, &text, true, false));
        }
        ev.push(json!({"e":"Query","text":text,"f":j,"ans":a.json()}));
    }
    Ok(json!({"id": seed, "cp": cp, "ev": ev}))
}

/// (regular expressions take most of the time)
fn old_query_fast(r: &mut Rng, c: &Corpus, q: &QOpts) -> F {
    loop {
        let f = old_query(r, c, q);
        if r.p(12) || !Render::new(r).go(&f, true).1.to_string().contains("re\",") {
            return f;
        }
    }
}

/// unlimited distances in long texts
fn far(r: &mut Rng, c: &Corpus, q: &QOpts) -> F {
    loop {
        let f = query(r, c, q);
        let t = Render::new(r).go(&f, true).1.to_string();
        if ["\"prec\",\"\",1,-1", "\"near\",\"\",1,-1"]
            .iter()
            .any(|x| t.contains(x))
            && !t.contains("re\",")
        {
            return f;
        }
    }
}

pub fn run(a: &Args) -> R<()> {
    let mut out = Out::create(&a.s("out", "/dev/stdout"))?;
    let n = a.u("n", 10);
    let seed = a.u("seed", 1);
    let shards = a.u("shards", 1);
    let profile = a.s("profile", "plain");
    let only = a.u("only", 0);
    if only > 0 {
        return out.line(&trace(only, &profile)?);
    }
    for i in 0..n.div_ceil(shards) {
        let s = seed * 1_000_003 + i;
        match guarded(|| trace(s, &profile)) {
            Ok(v) => out.line(&v)?,
            Err(e) => return Err(e.into()),
        }
    }
    Ok(())
}
