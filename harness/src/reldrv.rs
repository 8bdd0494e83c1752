//! Imports of random relANNIS corpora (spec/RelAnnis.tla).
use crate::common::*;
use crate::corpusdrv::{Answers, Inst};
use crate::exportdrv::{content, encoded_node};
use graphannis::corpusstorage::ImportFormat;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// an optional field
fn opt(v: Option<String>) -> Value {
    json!(v.into_iter().collect::<Vec<_>>())
}

/// a field of a table: the value or NULL
struct Row(Vec<String>);
impl Row {
    fn t(&mut self, r: &mut Rng, v: &str) {
        let mut s = String::new();
        for c in v.chars() {
            match c {
                '\\' => s.push_str("\\\\"),
                '\n' => s.push_str("\\n"),
                '\r' => s.push_str("\\r"),
                '\t' => s.push_str("\\t"),
                '"' | '\'' | '`' | '$' if r.p(50) => {
                    s.push('\\');
                    s.push(c)
                }
                c => s.push(c),
            }
        }
        self.0.push(s);
    }
    fn o(&mut self, r: &mut Rng, v: &Value) {
        match v[0].as_str() {
            Some(x) => self.t(r, x),
            None => match v[0].as_u64() {
                Some(x) => self.0.push(x.to_string()),
                None => self.0.push("NULL".into()),
            },
        }
    }
    fn n(&mut self, v: &Value) {
        self.0.push(v.as_u64().unwrap().to_string());
    }
    fn x(&mut self, v: &str) {
        self.0.push(v.into());
    }
}

const WORDS: [&str; 14] = ["a", "Is", "ä", "it's", "\"q\"", "x\\n", "$5", "<&>", "%20", "日本", "😀b", "a\\", "#", "NULLx"];
const GAPS: [&str; 7] = ["", " ", " ", "  ", "\n", "\t ", " –"];
const VALUES: [&str; 10] = ["NN", "a b", "", "ä", "x\ty", "\\t", "'", "null", "1", "`"];
const LAYERS: [&str; 4] = ["default_ns", "l 1", "salt", "ö"];

fn layer(r: &mut Rng) -> Value {
    if r.p(30) { json!([]) } else { json!([r.pick(&LAYERS)]) }
}
fn value(r: &mut Rng) -> Value {
    if r.p(12) { json!([]) } else { json!([r.pick(&VALUES)]) }
}

fn unique_ids(r: &mut Rng, n: usize, space: usize) -> Vec<usize> {
    let mut l: Vec<usize> = (0..space.max(n)).collect();
    r.shuffle(&mut l);
    l.truncate(n);
    l
}

struct Cfg {
    v33: bool,
    segs: bool,
}

fn tables(r: &mut Rng, f: &Cfg) -> Value {
    // the tree of corpora: (name, type, children)
    let root = *r.pick(&["rc", "rc", "a b", "ä", "x%y", "Root:: Cö/%s", "c.d", "A<b>"]);
    struct C {
        name: String,
        doc: bool,
        parent: usize,
    }
    let mut cs = vec![C { name: root.into(), doc: false, parent: 0 }];
    let docs = ["doc", "doc1", "d 2", "dö", "d/3", "doc"];
    let mut inner = vec![0];
    for i in 0..r.n(3) {
        let p = *r.pick(&inner);
        inner.push(cs.len());
        cs.push(C { name: format!("{}{i}", r.pick(&["sub", "s s", "rc", "ü"])), doc: false, parent: p });
    }
    let ndocs = r.range(1, 3);
    for i in 0..ndocs {
        let p = *r.pick(&inner);
        let name = if r.p(20) { "doc".to_string() } else { format!("{}{i}", r.pick(&docs)) };
        cs.push(C { name, doc: true, parent: p });
    }
    let ids = unique_ids(r, cs.len(), 12);
    // pre and post order
    fn order(cs: &[(usize, bool)], i: usize, n: &mut usize, out: &mut Vec<(usize, usize)>) {
        let pre = *n;
        *n += 1;
        for c in 0..cs.len() {
            if c != i && c != 0 && cs[c].0 == i {
                order(cs, c, n, out);
            }
        }
        out[i] = (pre, *n);
        *n += 1;
    }
    let mut pp = vec![(0, 0); cs.len()];
    order(&cs.iter().map(|c| (c.parent, c.doc)).collect::<Vec<_>>(), 0, &mut 0, &mut pp);
    let mut corpora: Vec<Value> = (0..cs.len())
        .map(|i| json!({"id": ids[i], "name": cs[i].name, "enc": encoded_node(&cs[i].name), "type": if cs[i].doc { "DOCUMENT" } else { "CORPUS" }, "pre": pp[i].0, "post": pp[i].1}))
        .collect();
    // texts with tokens, spans and segmentation nodes
    let mut texts = vec![];
    let mut nodes: Vec<Value> = vec![];
    let mut nannos: Vec<Value> = vec![];
    let mut names = BTreeSet::new();
    let node_ids = unique_ids(r, 80, 120);
    let mut cov: Vec<(usize, usize)> = vec![]; // (span, token) which are explicit or not
    let mut global_text = r.n(3);
    for d in (0..cs.len()).filter(|i| cs[*i].doc) {
        for t in 0..*r.pick(&[0, 1, 1, 1, 2]) {
            let id = if f.v33 { t } else { global_text };
            global_text += 1;
            let timeline = f.v33 && f.segs && r.p(30);
            let mut s: Vec<char> = vec![];
            let mut tok = vec![];
            if r.p(30) {
                s.extend(r.pick(&["  ", " ", "\n\n", "¶ "]).chars());
            }
            for _ in 0..r.range(0, 4) {
                let b = s.len();
                let w = if timeline { " " } else { r.pick(&WORDS) };
                if !timeline {
                    s.extend(w.chars());
                }
                tok.push((b, s.len(), w.to_string()));
                s.extend(r.pick(&GAPS).chars());
            }
            if tok.is_empty() && r.p(50) {
                s.extend("some text".chars());
            }
            let name = format!("{}{t}", r.pick(&["sText", "t x", "ö/", "t#"]));
            texts.push(json!({"id": id, "corpus": ids[d], "name": name, "enc": encoded_node(&name), "val": s.iter().map(|c| c.to_string()).collect::<Vec<_>>()}));
            let mut add = |r: &mut Rng, nodes: &mut Vec<Value>, left: usize, right: usize, tokidx: Value, lt: usize, rt: usize, seg: Option<(usize, String)>, span: Value| -> usize {
                let k = nodes.len();
                let mut n = format!("{}{k}", r.pick(&["n", "sTok", "a b", "ä%", "x#", "p/"]));
                while !names.insert(n.clone()) {
                    n.push('_');
                }
                nodes.push(json!({"id": node_ids[k], "text": id, "corpus": ids[d], "layer": layer(r), "name": n, "left": left, "right": right,
                    "tok": tokidx, "lt": lt, "rt": rt, "segidx": opt(None), "seg": json!([]), "span": span}));
                if let Some((i, n)) = seg {
                    nodes[k]["segidx"] = json!([i]);
                    nodes[k]["seg"] = json!([n]);
                }
                k
            };
            let base = if r.p(80) { 0 } else { 3 };
            let mut tk = vec![];
            for (i, x) in tok.iter().enumerate() {
                tk.push(add(r, &mut nodes, x.0, x.1, json!([base + i]), base + i, base + i, None, json!([x.2])));
            }
            if tok.is_empty() {
                if r.p(30) {
                    add(r, &mut nodes, 0, 1, json!([]), 0, 0, None, json!([]));
                }
                continue;
            }
            // spans and other nodes
            for _ in 0..r.n(4) {
                let i = r.n(tok.len());
                let j = r.range(i, tok.len() - 1);
                let (mut left, mut right, mut lt, mut rt) = (tok[i].0, tok[j].1, base + i, base + j);
                if r.p(15) {
                    // not aligned to tokens
                    if r.p(50) {
                        left += 1;
                        lt += 7;
                    }
                    if r.p(50) {
                        right += 1;
                        rt += 7;
                    }
                }
                let k = add(r, &mut nodes, left, right, json!([]), lt, rt, None, json!([]));
                for x in tk.iter().take(j + 1).skip(i) {
                    cov.push((k, *x));
                }
            }
            if f.segs && r.p(60) {
                for name in ["dipl", "nörm"] {
                    let mut i = 0;
                    let mut idx = r.n(2);
                    while i < tok.len() {
                        let j = r.range(i, tok.len() - 1);
                        if r.p(85) {
                            let with = f.v33 && r.p(60);
                            let span = if with { json!([r.pick(&WORDS)]) } else { json!([]) };
                            let k = add(r, &mut nodes, tok[i].0, tok[j].1, json!([]), base + i, base + j, Some((idx, name.into())), span);
                            if !with || r.p(40) {
                                nannos.push(json!({"node": node_ids[k], "ns": layer(r), "name": name, "val": value(r)}));
                            }
                            for x in tk.iter().take(j + 1).skip(i) {
                                cov.push((k, *x));
                            }
                        }
                        idx += r.range(1, 2);
                        i = j + 1;
                    }
                }
            }
        }
    }
    let mut seen = BTreeSet::new();
    for k in 0..nodes.len() {
        for _ in 0..r.n(3) {
            let ns = layer(r);
            let name = *r.pick(&["pos", "lemma", "a b", "tok", "ö"]);
            if seen.insert((k, ns[0].as_str().unwrap_or("").to_string(), name)) {
                nannos.push(json!({"node": node_ids[k], "ns": ns, "name": name, "val": value(r)}));
            }
        }
        if r.p(4) {
            nannos.push(json!({"node": node_ids[k], "ns": ["annis"], "name": "tok", "val": ["other"]}));
        }
    }
    // components and their ranks
    let ncomp = r.range(0, 5);
    let cids = unique_ids(r, ncomp, 9);
    let mut comps = vec![];
    let mut ranks: Vec<Value> = vec![];
    let rank_ids = unique_ids(r, 200, 300);
    let mut rank = |node: usize, comp: usize, parent: Option<usize>, nodes: &[Value]| -> usize {
        let id = rank_ids[ranks.len()];
        ranks.push(json!({"id": id, "node": nodes[node]["id"], "comp": comp, "parent": parent.into_iter().collect::<Vec<_>>()}));
        id
    };
    for c in &cids {
        let ty = *r.pick(&["c", "c", "d", "p", "o"]);
        let null = r.p(5);
        comps.push(json!({"id": c, "type": if null { json!([]) } else { json!([ty]) }, "layer": layer(r), "name": if ty == "c" || r.p(40) { json!([]) } else { json!([r.pick(&["edge", "a b", "NULL ", "x/y"])]) }}));
        if nodes.is_empty() {
            continue;
        }
        match ty {
            "c" => {
                let spans: BTreeSet<usize> = cov.iter().map(|x| x.0).collect();
                for s in spans {
                    if r.p(30) {
                        continue;
                    }
                    let all = r.p(50);
                    let some = r.p(60);
                    let id = rank(s, *c, None, &nodes);
                    for t in cov.iter().filter(|x| x.0 == s) {
                        if some && (all || r.p(50)) {
                            rank(t.1, *c, Some(id), &nodes);
                        }
                    }
                }
            }
            "d" => {
                // trees in each text, with tokens as leaves
                let mut open: Vec<(usize, usize)> = vec![];
                for k in (0..nodes.len()).rev() {
                    if r.p(30) {
                        continue;
                    }
                    let same: Vec<usize> = open.iter().filter(|o| nodes[o.0]["corpus"] == nodes[k]["corpus"] && nodes[o.0]["text"] == nodes[k]["text"]).map(|o| o.1).collect();
                    let token = nodes[k]["tok"][0].is_u64();
                    let parent = if same.is_empty() || r.p(30) { None } else { Some(*r.pick(&same)) };
                    let id = rank(k, *c, parent, &nodes);
                    if !token {
                        open.push((k, id));
                    }
                }
            }
            _ => {
                for _ in 0..r.n(5) {
                    let (a, b) = (r.n(nodes.len()), r.n(nodes.len()));
                    if a < b || (a != b && ty == "p") {
                        let id = rank(a, *c, None, &nodes);
                        rank(b, *c, if r.p(93) { Some(id) } else { Some(999) }, &nodes);
                    }
                }
            }
        }
    }
    let mut eannos = vec![];
    // (the same edge can be there several times: in components with an equal name)
    let mut seen = BTreeSet::new();
    for x in &ranks {
        let node = |id: &Value| ranks.iter().find(|y| &y["id"] == id).map(|y| y["node"].to_string());
        let comp = comps.iter().find(|c| c["id"] == x["comp"]).map(|c| format!("{}{}{}", c["type"], c["layer"][0].as_str().unwrap_or(""), c["name"]));
        let edge = (comp, node(&x["parent"][0]), x["node"].to_string());
        if r.p(35) && (edge.1.is_none() || seen.insert(edge)) {
            for name in ["func", "a b"] {
                if r.p(60) {
                    eannos.push(json!({"rank": x["id"], "ns": layer(r), "name": name, "val": value(r)}));
                }
            }
        }
    }
    let mut cannos = vec![];
    for i in &ids {
        for name in ["genre", "x y", "ö"] {
            if r.p(30) {
                cannos.push(json!({"corpus": i, "ns": layer(r), "name": name, "val": value(r)}));
            }
        }
    }
    // external files of the corpora
    let mut files = vec![];
    let mut used = BTreeMap::new();
    for (i, c) in cs.iter().enumerate() {
        *used.entry(c.name.clone()).or_insert(0) += 1;
        if r.p(30) && !c.name.contains('/') {
            for k in 0..r.range(1, 2) {
                files.push(json!({"corpus": ids[i], "dir": if i == 0 { json!([]) } else { json!([c.name]) }, "name": format!("{}{k}.{}", r.pick(&["f", "ä x", "%20"]), r.pick(&["wav", "txt"])), "content": format!("content {}", r.n(1000))}));
            }
        }
    }
    // (files are found by the name of the corpus)
    files.retain(|x| x["dir"][0].as_str().is_none_or(|d| used[d] == 1));
    // configuration
    let mut vis = vec![];
    let mut orders = unique_ids(r, 12, 300);
    orders.retain(|o| !(101..=105).contains(o));
    for o in orders.iter().take(r.n(6)) {
        let m: Vec<Value> = (0..r.n(3)).map(|i| json!([format!("k{i}"), r.pick(&["true", "a, b", "x:y", ""])])).collect();
        let mut row = json!({"layer": if r.p(30) { json!([]) } else { json!([r.pick(&["tiger", "exmaralda", "mmax", "urml", "syntax"])]) },
            "element": if r.p(20) { json!([]) } else { json!([r.pick(&["node", "edge", "text"])]) }, "vis": r.pick(&["tree", "grid", "discourse", "kwic"]),
            "display": r.pick(&["tree", "kwic", "coref", "exmaralda", "my ö"]), "visibility": r.pick(&["hidden", "visible", "permanent", "preloaded", "removed"]), "order": o, "map": m});
        if r.p(25) {
            // exactly one of the defaults
            let (l, e, v, d) = *r.pick(&[("tiger", "node", "tree", "tree"), ("exmaralda", "node", "grid", "exmaralda"), ("mmax", "edge", "discourse", "coref"), ("", "", "kwic", "kwic")]);
            row["visibility"] = json!("removed");
            row["layer"] = if l.is_empty() { json!([]) } else { json!([l]) };
            row["element"] = if e.is_empty() { json!([]) } else { json!([e]) };
            row["vis"] = json!(v);
            row["display"] = json!(d);
        }
        vis.push(row);
    }
    let examples: Vec<Value> = (0..r.n(3)).map(|i| json!([r.pick(&["tok", "pos=/a\\n/ . tok", "\"x\""]), format!("ex {i} {}", r.pick(&["ä", "\t", "$"]))])).collect();
    let mut props = vec![];
    for k in ["context-steps", "max-context", "default-context", "results-per-page", "default-context-segmentation", "default-base-text-segmentation", "hidden_annos",
        "virtual_tokenization_from_namespace", "virtual_tokenization_mapping", "other"]
    {
        if r.p(25) {
            let num = *r.pick(&[0, 1, 2, 5, 20]);
            let p = match k {
                "default-context-segmentation" | "default-base-text-segmentation" => json!({"k": k, "v": r.pick(&["", "dipl", "nörm"]), "n": [], "l": []}),
                "hidden_annos" => {
                    let l: Vec<&str> = (0..r.range(1, 3)).map(|_| *r.pick(&["a", "b:c", "ö"])).collect();
                    json!({"k": k, "v": l.join(r.pick(&[",", ", ", " ,"])), "n": [], "l": l})
                }
                "virtual_tokenization_from_namespace" => json!({"k": k, "v": r.pick(&["true", "TRUE", "false", "x"]), "n": [], "l": []}),
                "virtual_tokenization_mapping" => {
                    let l: Vec<(String, &str)> = (0..r.range(1, 3)).map(|i| (format!("n:a{i}"), *r.pick(&["dipl", "nörm"]))).collect();
                    json!({"k": k, "v": l.iter().map(|x| format!("{}={}", x.0, x.1)).collect::<Vec<_>>().join(","), "n": [], "l": l})
                }
                _ => {
                    if r.p(85) {
                        json!({"k": k, "v": num.to_string(), "n": [num], "l": []})
                    } else {
                        json!({"k": k, "v": r.pick(&["", "x", "1.5"]), "n": [], "l": []})
                    }
                }
            };
            props.push(p);
        }
    }
    r.shuffle(&mut props);
    r.shuffle(&mut nodes);
    r.shuffle(&mut corpora);
    r.shuffle(&mut ranks);
    r.shuffle(&mut nannos);
    r.shuffle(&mut texts);
    let tables = json!({"v33": f.v33, "segs": f.segs, "corpora": corpora, "texts": texts, "nodes": nodes, "nannos": nannos, "comps": comps, "ranks": ranks, "eannos": eannos,
        "cannos": cannos, "files": files, "vis": vis, "examples": examples, "props": props, "inv": char::MAX.to_string()});
    tables
}

fn write(r: &mut Rng, dir: &Path, t: &Value) -> R<()> {
    let v33 = t["v33"] == true;
    let segs = t["segs"] == true;
    let ext = if v33 { "annis" } else { "tab" };
    if v33 {
        std::fs::write(dir.join("annis.version"), "3.3")?;
    } else if r.p(20) {
        std::fs::write(dir.join("annis.version"), "3.2")?;
    }
    let table = |r: &mut Rng, name: &str, key: &str, f: &dyn Fn(&mut Rng, &mut Row, &Value)| -> R<()> {
        let mut s = String::new();
        for x in t[key].as_array().unwrap() {
            let mut row = Row(vec![]);
            f(r, &mut row, x);
            s.push_str(&row.0.join("\t"));
            s.push('\n');
        }
        if r.p(30) {
            s.truncate(s.trim_end_matches('\n').len());
        }
        Ok(std::fs::write(dir.join(format!("{name}.{ext}")), s)?)
    };
    let st = |v: &Value| v.as_str().unwrap().to_string();
    table(r, "corpus", "corpora", &|r, w, x| {
        w.n(&x["id"]);
        w.t(r, &st(&x["name"]));
        w.x(&st(&x["type"]));
        w.x("NULL");
        w.n(&x["pre"]);
        w.n(&x["post"]);
        if v33 {
            w.x(if x["pre"] == 0 { "TRUE" } else { "FALSE" });
        }
    })?;
    table(r, "text", "texts", &|r, w, x| {
        if v33 {
            w.n(&x["corpus"]);
        }
        w.n(&x["id"]);
        w.t(r, &st(&x["name"]));
        let s: String = x["val"].as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect();
        w.t(r, &s);
    })?;
    table(r, "node", "nodes", &|r, w, x| {
        w.n(&x["id"]);
        w.n(&x["text"]);
        w.n(&x["corpus"]);
        w.o(r, &x["layer"]);
        w.t(r, &st(&x["name"]));
        w.n(&x["left"]);
        w.n(&x["right"]);
        w.o(r, &x["tok"]);
        if v33 {
            w.n(&x["lt"]);
            w.n(&x["rt"]);
            w.o(r, &x["segidx"]);
            w.o(r, &x["seg"]);
            w.o(r, &x["span"]);
            w.x("FALSE");
        } else if segs {
            w.o(r, &x["seg"]);
            w.o(r, &x["segidx"]);
            w.n(&x["lt"]);
            w.n(&x["rt"]);
            w.o(r, &x["span"]);
        } else {
            w.x("TRUE");
            w.o(r, &x["span"]);
        }
    })?;
    let anno = |r: &mut Rng, w: &mut Row, x: &Value, id: &str| {
        w.n(&x[id]);
        w.o(r, &x["ns"]);
        w.t(r, &st(&x["name"]));
        w.o(r, &x["val"]);
    };
    table(r, "node_annotation", "nannos", &|r, w, x| anno(r, w, x, "node"))?;
    table(r, "edge_annotation", "eannos", &|r, w, x| anno(r, w, x, "rank"))?;
    table(r, "corpus_annotation", "cannos", &|r, w, x| anno(r, w, x, "corpus"))?;
    table(r, "component", "comps", &|r, w, x| {
        w.n(&x["id"]);
        w.o(r, &x["type"]);
        w.o(r, &x["layer"]);
        w.o(r, &x["name"]);
    })?;
    table(r, "rank", "ranks", &|r, w, x| {
        w.n(&x["id"]);
        if v33 {
            w.x("7");
        }
        w.x("8");
        w.n(&x["node"]);
        w.n(&x["comp"]);
        w.o(r, &x["parent"]);
        w.x("1");
    })?;
    if !t["vis"].as_array().unwrap().is_empty() || r.p(50) {
        table(r, "resolver_vis_map", "vis", &|r, w, x| {
            w.x("corpus");
            w.x("NULL");
            w.o(r, &x["layer"]);
            w.o(r, &x["element"]);
            w.t(r, &st(&x["vis"]));
            w.t(r, &st(&x["display"]));
            w.x(&st(&x["visibility"]));
            w.n(&x["order"]);
            let m: Vec<String> = x["map"].as_array().unwrap().iter().map(|m| format!("{}{}:{}{}", r.pick(&["", " "]), st(&m[0]), r.pick(&["", " "]), st(&m[1]))).collect();
            if m.is_empty() {
                w.x("NULL");
            } else {
                w.t(r, &m.join(";"));
            }
        })?;
    }
    if !t["examples"].as_array().unwrap().is_empty() {
        table(r, "example_queries", "examples", &|r, w, x| {
            w.t(r, &st(&x[0]));
            w.t(r, &st(&x[1]));
        })?;
    }
    let data = dir.join("ExtData");
    for x in t["files"].as_array().unwrap() {
        let d = match x["dir"][0].as_str() {
            Some(s) => data.join(s),
            None => data.clone(),
        };
        std::fs::create_dir_all(&d)?;
        if x["name"] == "corpus.properties" {
            continue;
        }
        std::fs::write(d.join(st(&x["name"])), st(&x["content"]))?;
    }
    if let Some(p) = t["properties"].as_str() {
        std::fs::create_dir_all(&data)?;
        std::fs::write(data.join("corpus.properties"), p)?;
    }
    Ok(())
}

fn zip_of(dir: &Path, prefix: &str, out: &Path) -> R<()> {
    let mut z = zip::ZipWriter::new(std::fs::File::create(out)?);
    fn add(z: &mut zip::ZipWriter<std::fs::File>, dir: &Path, prefix: &str) -> R<()> {
        use std::io::Write;
        for f in std::fs::read_dir(dir)? {
            let f = f?;
            let n = format!("{prefix}{}", f.file_name().to_string_lossy());
            if f.path().is_dir() {
                add(z, &f.path(), &format!("{n}/"))?;
            } else {
                z.start_file(n, zip::write::SimpleFileOptions::default().compression_method(zip::CompressionMethod::Stored))?;
                z.write_all(&std::fs::read(f.path())?)?;
            }
        }
        Ok(())
    }
    add(&mut z, dir, prefix)?;
    z.finish()?;
    Ok(())
}

/// the configuration in the shape of the specification
fn config_json(c: &impl serde::Serialize) -> R<Value> {
    let v = serde_json::to_value(c)?;
    let o = |x: &Value| if x.is_null() { json!([]) } else { json!([x]) };
    let map = |m: &Value| m.as_object().map(|m| m.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()).unwrap_or_default();
    let vis: Vec<Value> = v["visualizers"]
        .as_array()
        .map(|l| {
            l.iter()
                .map(|x| json!({"layer": o(&x["layer"]), "element": o(&x["element"]), "vis": x["vis_type"], "display": x["display_name"], "visibility": x["visibility"], "map": map(&x["mappings"])}))
                .collect()
        })
        .unwrap_or_default();
    let ts = &v["view"]["timeline_strategy"];
    Ok(json!({
        "vis": vis,
        "examples": v["example_queries"].as_array().map(|l| l.iter().map(|x| json!([x["query"], x["description"]])).collect::<Vec<_>>()).unwrap_or_default(),
        "ctx": {"default": v["context"]["default"], "sizes": v["context"]["sizes"], "max": o(&v["context"]["max"]), "seg": o(&v["context"]["segmentation"])},
        "view": {"base": o(&v["view"]["base_text_segmentation"]), "page": v["view"]["page_size"], "hidden": v["view"]["hidden_annos"].as_array().cloned().unwrap_or_default(),
            "strategy": ts["strategy"].as_str().unwrap_or("Explicit"), "map": map(&ts["mappings"])},
        "size": if v["corpus_size"].is_null() { json!([]) } else {
            json!([v["corpus_size"]["unit"]["name"], v["corpus_size"]["unit"]["value"].as_str().unwrap_or(""), v["corpus_size"]["quantity"]]) },
    }))
}

fn trace(seed: u64) -> R<Value> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let v33 = r.p(65);
    let f = Cfg { v33, segs: v33 || r.p(50) };
    let mut t = tables(r, &f);
    let props = t["props"].as_array().unwrap().clone();
    if !props.is_empty() {
        let text: String = props.iter().map(|p| format!("{}={}\n", p["k"].as_str().unwrap(), p["v"].as_str().unwrap())).collect();
        t["properties"] = json!(text);
        // the file with the properties is an external file itself
        let root = t["corpora"].as_array().unwrap().iter().find(|c| c["pre"] == 0).unwrap()["id"].clone();
        t["files"].as_array_mut().unwrap().push(json!({"corpus": root, "dir": [], "name": "corpus.properties", "content": text}));
    }
    let tmp = tempfile::tempdir()?;
    let dir = tmp.path().join("in").join("relannis");
    std::fs::create_dir_all(&dir)?;
    write(r, &dir, &t)?;
    let bad = r.p(12);
    if bad {
        // a table that is needed is missing or has a broken row
        let ext = if v33 { "annis" } else { "tab" };
        let f = dir.join(format!("{}.{ext}", r.pick(&["corpus", "text", "node", "node_annotation", "edge_annotation", "corpus_annotation", "component", "rank"])));
        if r.p(50) {
            std::fs::remove_file(f)?;
        } else {
            let s = std::fs::read_to_string(&f)?;
            std::fs::write(&f, format!("{}\nx\ty\n", s.trim_end_matches('\n')))?;
        }
    }
    let root = t["corpora"].as_array().unwrap().iter().find(|c| c["pre"] == 0).unwrap()["name"].as_str().unwrap().to_string();
    let given = if r.p(40) { Some(r.pick(&["other", "a/b", "ä %"]).to_string()) } else { None };
    let zip = given.is_none() && r.p(40);
    let mut ans = Answers::new();
    for (n, disk) in [("mem", false), ("disk", true)] {
        let mut i = Inst::new(n, disk, r.p(50), r.p(25))?;
        let over = r.p(30);
        if over {
            i.cs().create_empty_corpus(given.as_deref().unwrap_or(&root), r.p(50))?;
        }
        let x = guarded(|| {
            let res = if zip {
                let z = tmp.path().join("x.zip");
                zip_of(&dir, r.pick(&["", "sub/", "a/b ö/"]), &z)?;
                match i.cs().import_all_from_zip(std::fs::File::open(&z)?, disk, over, |_| {}) {
                    Ok(l) if l.is_empty() && bad => Err("no corpus".to_string()),
                    Ok(l) => Ok(l.join("|")),
                    Err(e) => Err(e.to_string()),
                }
            } else {
                i.cs().import_from_fs(&dir, ImportFormat::RelANNIS, given.clone(), disk, over, |_| {}).map_err(|e| e.to_string())
            };
            let mut list: Vec<String> = i.cs().list()?.into_iter().map(|i| i.name).collect();
            list.sort();
            Ok(match res {
                Ok(name) => {
                    let cfg = config_json(&i.cs().info(&name)?.config)?;
                    i.shake(r, &[name.clone()])?;
                    i.cs = None;
                    let st = content(&i, &name)?;
                    json!({"name": [name], "list": list, "cfg": cfg, "st": st, "was": []})
                }
                Err(_) => json!({"name": [], "list": list, "cfg": [], "st": [], "was": if over { json!([given.as_deref().unwrap_or(&root)]) } else { json!([]) }}),
            })
        });
        ans.add(n, "v", x);
    }
    Ok(json!({"id": seed, "ev": [{"e": "Rel", "t": t, "bad": bad, "name": given.unwrap_or(root), "ans": ans.json()}]}))
}

pub fn run(a: &Args) -> R<()> {
    let mut out = Out::create(&a.s("out", "/dev/stdout"))?;
    let n = a.u("n", 10);
    let seed = a.u("seed", 1);
    let shards = a.u("shards", 1);
    let only = a.u("only", 0);
    if only > 0 {
        return out.line(&trace(only)?);
    }
    for i in 0..n.div_ceil(shards) {
        match guarded(|| trace(seed * 1_000_003 + i)) {
            Ok(v) => out.line(&v)?,
            Err(e) => return Err(e.into()),
        }
    }
    Ok(())
}
