//! Driver for GraphML: corpora are exported and imported again, in all formats.
use crate::aqldrv::history;
use crate::common::*;
use crate::corpus::*;
use crate::corpusdrv::{Answers, Inst, sq};
use graphannis::{AnnotationGraph, CorpusStorage};
use graphannis::corpusstorage::{CorpusInfo, ExportFormat, ImportFormat, ResultOrder};
use graphannis::graph::AnnoKey;
use graphannis_core::graph::serialization::graphml;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

const FRAGS: [&str; 34] = [
    "<", ">", "&", "\"", "'", "<b>x</b>", "&amp;", "&#10;", "]]>", "<![CDATA[", "<!-- -->", " ", "  x", "\n", "\r\n", "\r", "\t", "ä",
    "𝄞", "\u{200b}", "%20", "%", ":", "::", "/", "%2F", "\u{1}", "\u{85}", "\u{2028}", "é\u{301}", "中文", "\\", "k0", "\u{feff}",
];

/// Replaces some of the strings of a corpus by unusual ones.
struct Twist {
    level: usize,
    node: BTreeMap<String, String>,
    other: BTreeMap<(u8, String), String>,
    used: BTreeSet<String>,
}
impl Twist {
    fn new(level: usize) -> Twist {
        Twist { level, node: BTreeMap::new(), other: BTreeMap::new(), used: BTreeSet::new() }
    }
    fn odd(r: &mut Rng, s: &str) -> String {
        let mut t = String::new();
        for _ in 0..r.range(1, 3) {
            t += *r.pick(&FRAGS);
        }
        match r.n(5) {
            0 => format!("{t}{s}"),
            1 => t,
            2 => format!("{s}{t}{s}"),
            3 => format!("{t}{s}{t}"),
            _ => format!("{s}{t}"),
        }
    }
    fn name(&mut self, r: &mut Rng, s: &str) -> String {
        if let Some(t) = self.node.get(s) {
            return t.clone();
        }
        let mut t = s.to_string();
        if r.p(self.level) {
            t = Twist::odd(r, s);
        }
        while self.used.contains(&t) {
            t.push('x');
        }
        self.used.insert(t.clone());
        self.node.insert(s.into(), t.clone());
        t
    }
    /// kinds: 0 namespace, 1 name, 2 value, 3 layer, 4 component, 5 type
    fn text(&mut self, r: &mut Rng, k: u8, s: &str) -> String {
        if s == "annis" && (k == 0 || k == 3) {
            return s.into();
        }
        if let Some(t) = self.other.get(&(k, s.into())) {
            return t.clone();
        }
        let mut t = s.to_string();
        if r.p(self.level) && !(k == 5 && s == "file") {
            t = Twist::odd(r, s);
        }
        // names of labels and components cannot be empty
        while k != 2 && self.other.iter().any(|(x, y)| x.0 == k && *y == t) {
            t.push('x');
        }
        self.other.insert((k, s.into()), t.clone());
        t
    }
    fn anno(&mut self, r: &mut Rng, ns: &str, n: &str) -> (String, String) {
        if ns == "annis" { (ns.into(), n.into()) } else { (self.text(r, 0, ns), self.text(r, 1, n)) }
    }
    fn comp(&mut self, r: &mut Rng, c: &Comp) -> Comp {
        if c.1 == "annis" && c.2.is_empty() { c.clone() } else { comp(&c.0, &self.text(r, 3, &c.1), &self.text(r, 4, &c.2)) }
    }
    fn op(&mut self, r: &mut Rng, o: &Op) -> Op {
        match o {
            Op::AN(n, t) => Op::AN(self.name(r, n), self.text(r, 5, t)),
            Op::DN(n) => Op::DN(self.name(r, n)),
            Op::AL(n, a, b, v) => {
                let (x, y) = self.anno(r, a, b);
                Op::AL(self.name(r, n), x, y, self.text(r, 2, v))
            }
            Op::DL(n, a, b) => {
                let (x, y) = self.anno(r, a, b);
                Op::DL(self.name(r, n), x, y)
            }
            Op::AE(s, t, c) => Op::AE(self.name(r, s), self.name(r, t), self.comp(r, c)),
            Op::DE(s, t, c) => Op::DE(self.name(r, s), self.name(r, t), self.comp(r, c)),
            Op::AEL(s, t, c, a, b, v) => {
                let (x, y) = self.anno(r, a, b);
                Op::AEL(self.name(r, s), self.name(r, t), self.comp(r, c), x, y, self.text(r, 2, v))
            }
            Op::DEL(s, t, c, a, b) => {
                let (x, y) = self.anno(r, a, b);
                Op::DEL(self.name(r, s), self.name(r, t), self.comp(r, c), x, y)
            }
            Op::Bulk(_) => o.clone(),
        }
    }
}

fn word(r: &mut Rng) -> String {
    if r.p(60) { r.pick(&["tok", "pos", "x::pos", "tree", "grid", ""]).to_string() } else { Twist::odd(r, "w") }
}
fn words(r: &mut Rng, n: usize) -> Vec<String> {
    (0..r.n(n + 1)).map(|_| word(r)).collect()
}

fn config(r: &mut Rng, segs: &[String]) -> Value {
    let seg = |r: &mut Rng| if !segs.is_empty() && r.p(70) { r.pick(segs).clone() } else { word(r) };
    let mut v = json!({
        "context": {"default": r.n(20), "sizes": (0..r.n(4)).collect::<Vec<_>>()},
        "view": {"page_size": r.range(1, 100), "hidden_annos": words(r, 2), "corpus_annotation_order": words(r, 2)},
        "example_queries": [], "visualizers": [],
    });
    if r.p(40) {
        v["context"]["max"] = json!(r.n(50));
    }
    if r.p(40) {
        v["context"]["segmentation"] = json!(seg(r));
    }
    if r.p(35) {
        v["view"]["base_text_segmentation"] = json!(seg(r));
    }
    match r.n(5) {
        0 => v["view"]["timeline_strategy"] = json!({"strategy": "ImplicitFromNamespace"}),
        1 => v["view"]["timeline_strategy"] = json!({"strategy": "ImplicitFromMapping", "mappings": {word(r): word(r), "b": word(r)}}),
        _ => {}
    }
    for _ in 0..r.n(3) {
        let q = json!({"query": Twist::odd(r, "tok"), "description": word(r), "query_language": r.pick(&["AQL", "AQLQuirksV3"])});
        v["example_queries"].as_array_mut().unwrap().push(q);
    }
    for _ in 0..r.n(3) {
        let mut q = json!({"vis_type": word(r), "display_name": word(r), "visibility": r.pick(&["hidden", "visible", "permanent", "preloaded"])});
        if r.p(50) {
            q["element"] = json!(r.pick(&["node", "edge"]));
        }
        if r.p(50) {
            q["layer"] = json!(word(r));
        }
        if r.p(50) {
            q["mappings"] = json!({word(r): word(r), "node_key": word(r)});
        }
        v["visualizers"].as_array_mut().unwrap().push(q);
    }
    if r.p(35) {
        v["corpus_size"] = if r.p(50) {
            json!({"quantity": r.n(100), "unit": {"name": "tokens"}})
        } else {
            json!({"quantity": r.n(100), "unit": {"name": "segmentation", "value": seg(r)}})
        };
    }
    v
}

/// the configuration as text without the corpus size, and the corpus size
fn shown(c: &impl serde::Serialize) -> R<(String, Value)> {
    let mut v = serde_json::to_value(c)?;
    let s = v["corpus_size"].take();
    let size = if s.is_null() {
        json!([])
    } else {
        json!([s["unit"]["name"], s["unit"]["value"].as_str().unwrap_or(""), s["quantity"]])
    };
    Ok((v.to_string(), size))
}

struct Src {
    name: String,
    queries: Vec<String>,
    ops: Vec<Vec<Op>>,
    files: Vec<(String, String)>,
    config: Option<Value>,
}

const GENERIC: [&str; 8] = ["tok", "node", "tok . tok", "node _=_ tok", "node >* node", "node @* node", "node ->dep node", "annis:node_type"];

fn source(r: &mut Rng, name: &str, root: &str, level: usize) -> Src {
    let o = Opts {
        metadata: false,
        min_tok: 1,
        max_tok: r.range(1, 4), discontinuous: r.p(30), plain_names: level == 0 || r.p(50), docs: 2, no_structure: 8, seg_across: false,
    };
    let c = Corpus::random(r, root, o);
    let mut tw = Twist::new(level);
    let mut ops: Vec<Vec<Op>> = history(r, &c).into_iter().map(|l| l.iter().map(|o| tw.op(r, o)).collect()).collect();
    let mut queries = vec![];
    for _ in 0..r.range(1, 3) {
        if level == 0 {
            let q = QOpts { max_nodes: 2, logic: r.p(40), zero: false };
            let f = query(r, &c, &q);
            queries.push(Render::new(r).go(&f, true).0);
        } else {
            queries.push(r.pick(&GENERIC).to_string());
        }
    }
    let mut files = vec![];
    if r.p(45) && !c.corpora.is_empty() {
        let mut l = vec![];
        for i in 0..r.range(1, 3) {
            let doc = r.pick(&c.corpora).clone();
            let ext = *r.pick(&["wav", "ä x.webm", "<&>.txt", "%20.txt", "graphml.txt", "a'\".b", ""]);
            let n = match r.n(8) {
                // parts with a special meaning in paths (never more than one level up)
                0 => format!("../f{i}.{ext}"),
                1 => format!("{}f{i}.{ext}", r.pick(&["/dev/null/", "./", "d//", "d/../", "//dev/null/", "d/./"])),
                _ => format!("{root}/{}f{i}.{ext}", r.pick(&["", "d/", "d d/ö/"])),
            };
            let path = match r.n(5) {
                0 if inside(&n) => n.clone(),
                0 | 1 => format!("x{i}.wav"),
                2 => format!("some/dir/x{i}ä"),
                3 => format!("d & d/x{i}"),
                _ => format!("missing/x{i}"),
            };
            l.push(Op::AN(n.clone(), if r.p(92) { "file".into() } else { "node".into() }));
            l.push(Op::AE(n.clone(), tw.name(r, &doc), partc()));
            if r.p(92) {
                l.push(Op::AL(n.clone(), "annis".into(), "file".into(), path.clone()));
            }
            if !path.starts_with("missing") {
                files.push((path, format!("content {i} {}", r.n(1000))));
            }
        }
        ops.push(l);
    }
    let segs: Vec<String> = c.segs.iter().map(|s| tw.text(r, 4, s)).collect();
    let config = if r.p(70) { Some(config(r, &segs)) } else { None };
    Src { name: name.into(), queries, ops, files, config }
}

fn put(dir: &Path, files: &[(String, String)]) -> R<()> {
    for (p, c) in files {
        let p = dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap())?;
        std::fs::write(p, c)?;
    }
    Ok(())
}

/// whether a path stays in the folder it is relative to
fn inside(path: &str) -> bool {
    let mut depth = 0;
    for c in Path::new(path).components() {
        match c {
            std::path::Component::Normal(_) => depth += 1,
            std::path::Component::CurDir => {}
            std::path::Component::ParentDir => depth -= 1,
            _ => return false,
        }
        if depth < 0 {
            return false;
        }
    }
    depth > 0
}

fn dir_of(base: &Path, corpus: &str) -> PathBuf {
    let mut p = base.join(encoded_corpus(corpus));
    if !p.is_dir() {
        p = base.join(corpus);
    }
    p
}
/// like names of corpora and texts in the names of nodes
pub fn encoded_node(s: &str) -> String {
    encoded_corpus(s)
}
fn encoded_corpus(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii() && !"/ %\\<>\"|?*:".contains(c) && !c.is_control() { c.to_string() } else { let mut b = [0; 4]; c.encode_utf8(&mut b).bytes().map(|b| format!("%{b:02X}")).collect() }).collect()
}

/// everything that belongs to a corpus, read from its directory
pub fn content(inst: &Inst, corpus: &str) -> R<Value> {
    let dir = dir_of(inst.dir.path(), corpus);
    let mut g = AnnotationGraph::new(false)?;
    g.load_from(&dir, true)?;
    g.ensure_loaded_all()?;
    let mut v = project(&g)?.json();
    let na = g.get_node_annos();
    let key = AnnoKey { ns: "annis".into(), name: "file".into() };
    let mut files = vec![];
    let mut odd = vec![];
    for m in na.exact_anno_search(Some("annis"), "node_type", graphannis_core::annostorage::ValueSearch::Some("file")) {
        let n = m?.node;
        let name = na.get_value_for_item(&n, &graphannis_core::graph::NODE_NAME_KEY)?.unwrap_or_default().to_string();
        if let Some(path) = na.get_value_for_item(&n, &key)? {
            let p = dir.join("files").join(path.as_ref());
            if p.is_file() {
                files.push(json!([name, std::fs::read_to_string(p)?]));
                // the path has the name of the node, except for parts that would leave the folder
                if name.split('/').any(|x| ["", ".", ".."].contains(&x)) && inside(&path) {
                    odd.push((name, path.to_string()));
                }
            }
        }
    }
    for l in v["labels"].as_array_mut().unwrap() {
        for (n, p) in &odd {
            if l[0] == json!(n) && l[1] == "annis" && l[2] == "file" && l[3] == json!(p) {
                l[3] = json!(n);
            }
        }
    }
    v["files"] = json!(files);
    Ok(v)
}

fn answers(cs: &CorpusStorage, corpus: &str, queries: &[String]) -> Vec<Value> {
    let c = [corpus.to_string()];
    queries
        .iter()
        .map(|q| match guarded(|| Ok(cs.find(sq(&c, q), 0, None, ResultOrder::NotSorted)?)) {
            Ok(mut v) => {
                v.sort();
                json!(v)
            }
            // (the text of an error can have other numbers)
            Err(_) => json!(["error"]),
        })
        .collect()
}

/// exports and imports in one of the formats, returns the names of the imported corpora
fn trip(r: &mut Rng, a: &CorpusStorage, b: &Inst, cs: &[String], fmt: usize) -> R<Vec<String>> {
    let tmp = tempfile::tempdir()?;
    let over = r.p(30);
    if over {
        // something else is replaced
        b.cs().create_empty_corpus(&cs[0], r.p(50))?;
        if r.p(50) {
            let ops = vec![Op::AN("old".into(), "node".into()), Op::AL("old".into(), "".into(), "x".into(), "y".into())];
            b.cs().apply_update(&cs[0], &mut to_update(&ops)?)?;
        }
    }
    let mut res = vec![];
    match fmt {
        0 => {
            for c in cs {
                let d = tmp.path().join(format!("out{}", res.len()));
                std::fs::create_dir_all(&d)?;
                let f = d.join(r.pick(&["x.graphml", "some file", "c.xml"]));
                a.export_to_fs(&[c], &f, ExportFormat::GraphML)?;
                res.push(b.cs().import_from_fs(&f, ImportFormat::GraphML, Some(c.clone()), b.disk, over, |_| {})?);
            }
        }
        1 => {
            let out = tmp.path().join("out");
            std::fs::create_dir_all(&out)?;
            a.export_to_fs(cs, &out, ExportFormat::GraphMLDirectory)?;
            for c in cs {
                let mut d = out.clone();
                if cs.len() > 1 {
                    d.push(c);
                }
                d.push(format!("{c}.graphml"));
                res.push(b.cs().import_from_fs(&d, ImportFormat::GraphML, None, b.disk, over, |_| {})?);
            }
        }
        _ => {
            let f = tmp.path().join("x.zip");
            a.export_to_fs(cs, &f, ExportFormat::GraphMLZip)?;
            res = b.cs().import_all_from_zip(std::fs::File::open(&f)?, b.disk, over, |_| {})?;
        }
    }
    res.sort();
    Ok(res)
}

fn new_inst(r: &mut Rng, name: &'static str) -> R<Inst> {
    let disk = r.p(50);
    let par = r.p(50);
    let small = r.p(25);
    Inst::new(name, disk, par, small)
}

fn trace(seed: u64, _profile: &str) -> R<Value> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut ev = vec![];
    let mut pool = vec!["c", "b x", "ä", "c.d", "a&b", "100%", "C", "x%20y"];
    r.shuffle(&mut pool);
    let k = r.range(1, 3);
    let level = *r.pick(&[0, 10, 25, 50]);
    let same = r.p(30);
    let mut srcs = vec![];
    for n in &pool[..k] {
        let root = if same { "c" } else { n };
        srcs.push(source(r, n, root, level));
    }
    let mut inst = vec![Inst::new("mem", false, r.p(50), r.p(25))?, Inst::new("disk", true, r.p(50), r.p(25))?];
    let names: Vec<String> = srcs.iter().map(|s| s.name.clone()).collect();
    // the graph and its text
    for s in &srcs {
        let mut a = Answers::new();
        for (n, disk) in [("mem", false), ("disk", true)] {
            let x = guarded(|| {
                let mut g = AnnotationGraph::with_default_graphstorages(disk)?;
                for l in &s.ops {
                    g.apply_update(&mut to_update(l)?, |_| {})?;
                }
                if r.p(50) {
                    g.optimize_impl(r.p(50))?;
                }
                let c = s.config.as_ref().map(|_| Twist::odd(r, "[x]\na=1"));
                let mut t1 = vec![];
                graphml::export_stable_order(&g, c.as_deref(), &mut t1, |_| {})?;
                let mut t2 = vec![];
                graphml::export(&g, c.as_deref(), &mut t2, |_| {})?;
                let (g1, c1) = graphml::import::<graphannis::model::AnnotationComponentType, _, _>(&t1[..], r.p(50), |_| {})?;
                let mut again = vec![];
                graphml::export_stable_order(&g1, c1.as_deref(), &mut again, |_| {})?;
                let (g2, c2) = graphml::import::<graphannis::model::AnnotationComponentType, _, _>(&t2[..], r.p(50), |_| {})?;
                Ok(json!({"text": t1 == again, "c1": c1 == c, "c2": c2 == c, "st1": project(&g1)?.json(), "st2": project(&g2)?.json()}))
            });
            a.add(n, "v", x);
        }
        ev.push(json!({"e": "Text", "us": s.ops.iter().map(|l| ops_json(l)).collect::<Vec<_>>(), "ans": a.json()}));
    }
    // create the corpora
    for s in &srcs {
        let by_import = !s.files.is_empty() || r.p(30);
        let cfg = typed(|i: CorpusInfo| i.config, s.config.clone())?;
        let (cfg_text, size) = match &cfg {
            Some(c) => shown(c)?,
            None => shown(&typed(|i: CorpusInfo| i.config, Some(config0()))?)?,
        };
        let what = if by_import { "Load" } else { "Build" };
        let mut a = Answers::new();
        for i in &mut inst {
            let x = guarded(|| {
                if by_import {
                    let tmp = tempfile::tempdir()?;
                    let mut g = AnnotationGraph::with_default_graphstorages(false)?;
                    for l in &s.ops {
                        g.apply_update(&mut to_update(l)?, |_| {})?;
                    }
                    put(tmp.path(), &s.files)?;
                    let f = tmp.path().join("in.graphml");
                    let t = match &cfg {
                        Some(c) => Some(toml_text(c)?),
                        None => None,
                    };
                    graphml::export(&g, t.as_deref(), std::fs::File::create(&f)?, |_| {})?;
                    i.cs().import_from_fs(&f, ImportFormat::GraphML, Some(s.name.clone()), i.disk, false, |_| {})?;
                } else {
                    i.cs().create_empty_corpus(&s.name, i.disk)?;
                    if let Some(c) = &cfg {
                        std::fs::write(dir_of(i.dir.path(), &s.name).join("corpus-config.toml"), toml_text(c)?)?;
                    }
                    for l in &s.ops {
                        i.cs().apply_update(&s.name, &mut to_update(l)?)?;
                        i.shake(r, &[s.name.clone()])?;
                    }
                }
                let (c, _) = shown(&i.cs().info(&s.name)?.config)?;
                Ok(json!(c))
            });
            a.add(i.name, "c", x);
        }
        ev.push(json!({"e": what, "c": s.name, "us": s.ops.iter().map(|l| ops_json(l)).collect::<Vec<_>>(),
            "files": s.files.iter().map(|f| json!([f.0, f.1])).collect::<Vec<_>>(), "cfg": cfg_text, "size": size,
            "base": s.config.as_ref().and_then(|c| c["view"].get("base_text_segmentation")).map(|b| json!([b])).unwrap_or(json!([])), "ans": a.json()}));
    }
    for _ in 0..r.range(1, 3) {
        let mut cs = names.clone();
        r.shuffle(&mut cs);
        cs.truncate(r.range(1, cs.len()));
        let fmts = [r.n(3), r.n(3)];
        let hops = if r.p(35) { 2 } else { 1 };
        let mut a = Answers::new();
        for i in &mut inst {
            let x = guarded(|| {
                i.shake(r, &cs)?;
                let mut before = vec![];
                for c in &cs {
                    let q = &srcs.iter().find(|s| s.name == *c).unwrap().queries;
                    let (cfg, size) = shown(&i.cs().info(c)?.config)?;
                    before.push(json!({"c": c, "q": answers(i.cs(), c, q), "cfg": cfg, "size": size}));
                }
                let mut b = new_inst(r, "b")?;
                let mut n = trip(r, i.cs(), &b, &cs, fmts[0])?;
                if hops == 2 {
                    let b2 = new_inst(r, "b2")?;
                    b.shake(r, &cs)?;
                    let n2 = trip(r, b.cs(), &b2, &cs, fmts[1])?;
                    if n2 != n {
                        n.extend(n2);
                    }
                    b = b2;
                }
                let mut list: Vec<String> = b.cs().list()?.into_iter().map(|i| i.name).collect();
                list.sort();
                let mut after = vec![];
                for c in &cs {
                    let q = &srcs.iter().find(|s| s.name == *c).unwrap().queries;
                    let (cfg, size) = shown(&b.cs().info(c)?.config)?;
                    after.push(json!({"c": c, "q": answers(b.cs(), c, q), "cfg": cfg, "size": size}));
                }
                b.cs = None;
                for x in &mut after {
                    let c = x["c"].as_str().unwrap().to_string();
                    x["st"] = content(&b, &c)?;
                }
                Ok(json!({"names": n, "list": list, "before": before, "after": after}))
            });
            a.add(i.name, "v", x);
        }
        ev.push(json!({"e": "Trip", "cs": cs, "fmts": fmts, "hops": hops, "ans": a.json()}));
    }
    


    Ok(json!({"id": seed, "ev": ev}))
}

/// (the type of the configuration has no public name)
fn typed<T: serde::de::DeserializeOwned>(_: fn(CorpusInfo) -> T, v: Option<Value>) -> R<Option<T>> {
    Ok(match v {
        Some(v) => Some(serde_json::from_value(v)?),
        None => None,
    })
}
fn config0() -> Value {
    json!({})
}

fn toml_text(c: &impl serde::Serialize) -> R<String> {
    Ok(toml::to_string(c)?)
}

pub fn run(a: &Args) -> R<()> {
    let mut out = Out::create(&a.s("out", "/dev/stdout"))?;
    let n = a.u("n", 10);
    let seed = a.u("seed", 1);
    let shards = a.u("shards", 1);
    let profile = a.s("profile", "all");
    let only = a.u("only", 0);
    if only > 0 {
        return out.line(&trace(only, &profile)?);
    }
    for i in 0..n.div_ceil(shards) {
        let s = seed * 1_000_003 + i;
        match guarded(|| trace(s, &profile)) {
            Ok(v) => out.line(&v)?,
            Err(e) => return Err(e.into()),
        }
    }
    Ok(())
}
