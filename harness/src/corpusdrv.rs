//! Driver for the results of a corpus storage: counts, result pages, frequencies, subgraphs, listings.
use crate::aqldrv::history;
use crate::common::*;
use crate::corpus::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{CacheStrategy, FrequencyDefEntry, QueryLanguage, ResultOrder, SearchQuery};
use graphannis::model::AnnotationComponentType;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use std::time::Duration;

/// answers of several configurations, equal ones together
pub struct Answers(pub Vec<(String, Value)>);
impl Answers {
    pub fn new() -> Answers {
        Answers(vec![])
    }
    /// the value has its answer under `key`
    pub fn add(&mut self, cfg: &str, key: &str, a: Result<Value, String>) {
        let v = match a {
            Ok(v) => json!({key: v}),
            Err(e) => json!({"err": e}),
        };
        if let Some(e) = self.0.iter_mut().find(|e| e.1 == v) {
            e.0 += " ";
            e.0 += cfg;
        } else {
            self.0.push((cfg.into(), v));
        }
    }
    pub fn json(&self) -> Value {
        self.0
            .iter()
            .map(|(c, a)| {
                let mut a = a.clone();
                a["cfg"] = json!(c);
                a
            })
            .collect()
    }
}

pub struct Inst {
    pub name: &'static str,
    pub dir: tempfile::TempDir,
    pub disk: bool,
    pub par: bool,
    pub small: bool,
    pub cs: Option<CorpusStorage>,
}
impl Inst {
    pub fn new(name: &'static str, disk: bool, par: bool, small: bool) -> R<Inst> {
        let mut i = Inst { name, dir: tempfile::tempdir()?, disk, par, small, cs: None };
        i.open()?;
        Ok(i)
    }
    fn open(&mut self) -> R<()> {
        self.cs = Some(if self.small {
            CorpusStorage::with_cache_strategy(self.dir.path(), CacheStrategy::FixedMaxMemory(0), self.par)?
        } else {
            CorpusStorage::with_auto_cache_size(self.dir.path(), self.par)?
        });
        Ok(())
    }
    pub fn cs(&self) -> &CorpusStorage {
        self.cs.as_ref().unwrap()
    }
    /// changes which leave the content as it is
    pub fn shake(&mut self, r: &mut Rng, names: &[String]) -> R<()> {
        if r.p(55) {
            return Ok(());
        }
        let n = r.pick(names).clone();
        match r.n(10) {
            0..=2 => self.cs().unload(&n)?,
            3 => self.cs().preload(&n)?,
            4..=5 => {
                let disk = if r.p(70) { self.disk } else { !self.disk };
                self.cs().reoptimize_implementation(&n, disk)?
            }
            6..=7 => {
                self.cs = None;
                self.open()?;
            }
            8 => {
                self.cs().info(&n)?;
            }
            _ => {
                let q = SearchQuery { corpus_names: &[n], query: "tok", query_language: QueryLanguage::AQL, timeout: None };
                self.cs().count(q)?;
            }
        }
        Ok(())
    }
}

struct World {
    names: Vec<String>,
    corpora: BTreeMap<String, Corpus>,
    inst: Vec<Inst>,
    ev: Vec<Value>,
    cp: BTreeSet<String>,
    /// queries of ANNIS 3
    old: bool,
}

fn words_of(ops: &[Op], out: &mut BTreeSet<String>) {
    for o in ops {
        match o {
            Op::AN(n, t) => {
                out.insert(n.clone());
                out.insert(t.clone());
            }
            Op::AL(_, a, b, v) | Op::AEL(_, _, _, a, b, v) => {
                out.insert(a.clone());
                out.insert(b.clone());
                out.insert(v.clone());
            }
            _ => {}
        }
    }
}

/// names of labels as they are written in a match
fn encoded(s: &str) -> String {
    let mut res = String::new();
    for b in s.bytes() {
        if b < 32 || b >= 127 || b":/ %\\<>\"|?*".contains(&b) {
            res += &format!("%{b:02X}");
        } else {
            res.push(b as char);
        }
    }
    res
}

impl World {
    fn new(r: &mut Rng, o: Opts, several: bool) -> R<World> {
        let k = if several { r.range(1, 3) } else { 1 };
        let mut pool = vec!["c", "b x", "ä", "c2", "C"];
        r.shuffle(&mut pool);
        let names: Vec<String> = pool[..k].iter().map(|s| s.to_string()).collect();
        let mut w = World {
            names: names.clone(),
            corpora: BTreeMap::new(),
            inst: vec![
                Inst::new("mem", false, r.p(50), r.p(25))?,
                Inst::new("disk", true, r.p(50), r.p(25))?,
            ],
            ev: vec![],
            cp: BTreeSet::from(["".into(), "annis".into(), "node_name".into(), "node_type".into()]),
            old: o.metadata,
        };
        let same_root = r.p(25);
        let mut first: Option<Corpus> = None;
        for n in &names {
            let root = if same_root { "c".to_string() } else { n.replace(' ', "%20") };
            let mut c = Corpus::random(r, &root, o);
            if let Some(f) = &first && r.p(30) {
                c = f.clone();
            }
            if r.p(20) && !c.nodes.is_empty() {
                for _ in 0..2 {
                    let x = r.pick(&c.nodes).clone();
                    let l = ("n%s".to_string(), "x%y".to_string(), "NN".to_string());
                    c.ops.push(Op::AL(x, l.0.clone(), l.1.clone(), l.2.clone()));
                    c.labels.insert(l);
                }
            }
            first = first.or(Some(c.clone()));
            w.cp.insert(n.clone());
            let h = history(r, &c);
            for i in &w.inst {
                i.cs().create_empty_corpus(n, i.disk)?;
            }
            w.corpora.insert(n.clone(), c);
            for l in &h {
                w.update(r, n, l)?;
            }
        }
        Ok(w)
    }
    fn update(&mut self, r: &mut Rng, n: &str, l: &[Op]) -> R<()> {
        words_of(l, &mut self.cp);
        for i in &mut self.inst {
            i.cs().apply_update(n, &mut to_update(l)?)?;
            i.shake(r, &[n.to_string()])?;
        }
        self.ev.push(json!({"e":"Update","c":n,"us":ops_json(l)}));
        Ok(())
    }
    fn each(&mut self, r: &mut Rng, key: &str, mut f: impl FnMut(&CorpusStorage) -> R<Value>) -> Value {
        let mut a = Answers::new();
        let names = self.names.clone();
        for i in &mut self.inst {
            let x = guarded(|| {
                i.shake(r, &names)?;
                f(i.cs())
            });
            a.add(i.name, key, x);
        }
        a.json()
    }
    /// some of the corpora in any order
    fn some(&self, r: &mut Rng) -> Vec<String> {
        let mut c = self.names.clone();
        r.shuffle(&mut c);
        if r.p(30) {
            c.truncate(r.range(1, c.len()));
        }
        c
    }
    fn query(&self, r: &mut Rng, max_nodes: usize, cs: &[String]) -> (F, String, Value) {
        let c = self.corpora[r.pick(cs)].clone();
        let q = QOpts { max_nodes, logic: r.p(40), zero: false };
        loop {
            let f = if self.old { old_query(r, &c, &q) } else { query(r, &c, &q) };
            let (t, j) = Render::new(r).go(&f, true);
            // regular expressions take most of the time
            if !j.to_string().contains("re\",") || r.p(15) {
                return (f, t, j);
            }
        }
    }
}

pub fn sq<'a>(cs: &'a [String], q: &'a str) -> SearchQuery<'a, String> {
    SearchQuery { corpus_names: cs, query: q, query_language: QueryLanguage::AQL, timeout: None }
}

pub fn sql<'a>(cs: &'a [String], q: &'a str, old: bool) -> SearchQuery<'a, String> {
    SearchQuery { query_language: lang(old), ..sq(cs, q) }
}
fn lang(old: bool) -> QueryLanguage {
    if old { QueryLanguage::AQLQuirksV3 } else { QueryLanguage::AQL }
}
fn mark(w: &World, mut e: Value) -> Value {
    if w.old {
        e["old"] = json!(true);
    }
    e
}

fn size(w: &World, cs: &[String], t: &str) -> u64 {
    guarded(|| Ok(w.inst[0].cs().count(sql(cs, t, w.old))?)).unwrap_or(0)
}

fn ev_count(w: &mut World, r: &mut Rng) -> R<()> {
    let old = w.old;
    let cs = w.some(r);
    let (_, t, j) = w.query(r, 3, &cs);
    let t0 = std::time::Instant::now();
    let timeout = if r.p(12) { Some(Duration::from_micros(r.n(3) as u64 * 100)) } else { None };
    let ans = w.each(r, "r", |s| {
        let q = || SearchQuery { timeout, ..sql(&cs, &t, old) };
        let a = s.count(q())?;
        let x = s.count_extra(q())?;
        let f = s.find(q(), 0, None, ResultOrder::NotSorted)?.len();
        Ok(json!([a, x.match_count, x.document_count, f]))
    });
    if std::env::var("VH_Q").is_ok() && t0.elapsed().as_millis() > 150 { eprintln!("{:?} {ans} {t}", t0.elapsed()); }
    let e = mark(w, json!({"e":"Count","cs":cs,"text":t,"f":j,"may":timeout.is_some(),"ans":ans}));
    w.ev.push(e);
    Ok(())
}

fn ev_find(w: &mut World, r: &mut Rng) {
    let old = w.old;
    let cs = w.some(r);
    let (_, t, j) = w.query(r, 3, &cs);
    let n = size(w, &cs, &t) as usize;
    if n > 250 {
        return;
    }
    let (on, order) = match r.n(10) {
        0..=4 => ("normal", ResultOrder::Normal),
        5..=6 => ("inverted", ResultOrder::Inverted),
        7..=8 => ("unsorted", ResultOrder::NotSorted),
        _ => ("random", ResultOrder::Randomized),
    };
    let mut pages: Vec<(usize, Option<usize>)> = vec![(0, None)];
    if r.p(70) {
        let k = r.range(1, (n / 3).clamp(1, 40));
        let mut o = 0;
        while o < n + k && pages.len() < 12 {
            pages.push((o, Some(k)));
            o += k;
        }
    }
    for _ in 0..r.n(4) {
        let o = r.n(n + 3);
        pages.push((o, *r.pick(&[None, Some(0), Some(1), Some(n), Some(usize::MAX), Some(usize::MAX / 50)])));
    }
    if r.p(10) {
        pages.push((usize::MAX, r.pick(&[None, Some(1), Some(usize::MAX)]).to_owned()));
    }
    let ans = w.each(r, "pages", |s| {
        let mut v = vec![];
        for (o, l) in &pages {
            let x = s.find(sql(&cs, &t, old), *o, *l, order)?;
            let big = |x: usize| if x > 1_000_000 { 1_000_000 } else { x };
            v.push(json!({"o": big(*o), "l": l.map(|l| big(l) as i64).unwrap_or(-1), "r": x}));
        }
        Ok(json!(v))
    });
    let e = mark(w, json!({"e":"Find","cs":cs,"text":t,"f":j,"order":on,"ans":ans}));
    w.ev.push(e);
}

fn ev_freq(w: &mut World, r: &mut Rng) {
    let old = w.old;
    let cs = w.some(r);
    let (_, t, j) = w.query(r, 3, &cs);
    if size(w, &cs, &t) > 400 {
        return;
    }
    let mut vars = vec![];
    variables(&j, &mut vars);
    let mut def = vec![];
    for _ in 0..r.range(0, 3) {
        let v = if r.p(8) { "nope".to_string() } else { r.pick(&vars).clone() };
        let c = &w.corpora[r.pick(&cs)];
        let mut l: Vec<(String, String)> = c.labels.iter().map(|l| (l.0.clone(), l.1.clone())).collect();
        l.push(("annis".into(), "node_name".into()));
        l.push(("annis".into(), "tok".into()));
        l.push(("".into(), "nope".into()));
        let (ns, n) = r.pick(&l).clone();
        def.push((v, if ns.is_empty() || r.p(40) { "*".to_string() } else { ns }, n));
    }
    if def.iter().any(|d| d.0.starts_with('_')) {
        return;
    }
    let text = |d: &(String, String, String)| if d.1 == "*" { format!("{}:{}", d.0, d.2) } else { format!("{}:{}::{}", d.0, d.1, d.2) };
    let by_text = r.p(60);
    let ans = w.each(r, "r", |s| {
        let mut d = vec![];
        for x in &def {
            d.push(if by_text {
                FrequencyDefEntry::from_str(&text(x))?
            } else {
                FrequencyDefEntry { ns: if x.1 == "*" { None } else { Some(x.1.clone()) }, name: x.2.clone(), node_ref: x.0.clone() }
            });
        }
        let f = s.frequency(sql(&cs, &t, old), d)?;
        // rows with the same count have no order
        let mut v: Vec<(i64, Vec<String>)> = f.into_iter().map(|x| (-(x.count as i64), x.values)).collect();
        let counts: Vec<i64> = v.iter().map(|x| -x.0).collect();
        v.sort();
        Ok(json!({"rows": v.iter().map(|x| json!([x.1, -x.0])).collect::<Vec<_>>(), "counts": counts}))
    });
    let e = mark(w, json!({"e":"Freq","cs":cs,"text":t,"f":j,"def":def,"ans":ans}));
    w.ev.push(e);
}

fn variables(j: &Value, out: &mut Vec<String>) {
    let a = j.as_array().unwrap();
    match a[0].as_str().unwrap() {
        "N" => out.push(a[2].as_str().unwrap().into()),
        "and" | "or" => a[1..].iter().for_each(|x| variables(x, out)),
        _ => {}
    }
}

fn st(g: &graphannis::AnnotationGraph) -> R<Value> {
    Ok(project(g)?.json())
}

fn ev_sub(w: &mut World, r: &mut Rng) {
    let old = w.old;
    let n = r.pick(&w.names).clone();
    let c = w.corpora[&n].clone();
    match r.n(20) {
        0..=11 => {
            let mut ids = vec![];
            let mut pool = c.nodes.clone();
            if r.p(20) {
                pool.extend(c.corpora.clone());
            }
            let k = *r.pick(&[1, 1, 2, 2, 3, 4]);
            for _ in 0..k {
                if !pool.is_empty() {
                    ids.push(r.pick(&pool).clone());
                }
            }
            if r.p(3) {
                ids.push("nope".into());
            }
            let l = *r.pick(&[0, 0, 1, 1, 2, 3, 7]);
            let rr = *r.pick(&[0, 0, 1, 1, 2, 3, 7]);
            let seg = if r.p(35) && !c.segs.is_empty() { Some(r.pick(&c.segs).clone()) } else if r.p(3) { Some("nope".to_string()) } else { None };
            let ans = w.each(r, "st", |s| st(&s.subgraph(&n, ids.clone(), l, rr, seg.clone())?));
            w.ev.push(json!({"e":"Sub","c":n,"ids":ids,"l":l,"r":rr,"seg":seg.unwrap_or_default(),"ans":ans}));
        }
        12..=15 => {
            let (_, t, j) = w.query(r, 3, &[n.clone()]);
            let filter = *r.pick(&["", "", "", "Ordering", "Ordering", "PartOf", "Dominance", "Coverage", "Pointing", "LeftToken"]);
            let ans = w.each(r, "st", |s| {
                let f = if filter.is_empty() { None } else { Some(AnnotationComponentType::from_str(filter)?) };
                st(&s.subgraph_for_query(&n, &t, lang(old), f)?)
            });
            let e = mark(w, json!({"e":"SubQ","c":n,"text":t,"f":j,"filter":filter,"ans":ans}));
    w.ev.push(e);
        }
        16..=18 => {
            let mut pool = c.corpora.clone();
            pool.push(c.root.clone());
            if r.p(10) {
                pool.extend(c.nodes.clone());
            }
            let ids: Vec<String> = (0..r.range(1, 2)).map(|_| r.pick(&pool).clone()).collect();
            let salt = r.p(15);
            let ans = w.each(r, "st", |s| {
                let ids: Vec<String> = ids.iter().map(|i| if salt { format!("salt:/{i}") } else { i.clone() }).collect();
                st(&s.subcorpus_graph(&n, ids)?)
            });
            w.ev.push(json!({"e":"SubC","c":n,"ids":ids,"ans":ans}));
        }
        _ => {
            let ans = w.each(r, "st", |s| st(&s.corpus_graph(&n)?));
            w.ev.push(json!({"e":"CorpG","c":n,"ans":ans}));
        }
    }
}

fn ev_list(w: &mut World, r: &mut Rng) {
    let n = r.pick(&w.names).clone();
    let c = w.corpora[&n].clone();
    let comps: Vec<Comp> = c.ops.iter().filter_map(|o| if let Op::AE(_, _, c) = o { Some(c.clone()) } else { None }).collect();
    match r.n(10) {
        0..=2 => {
            let ty = if r.p(50) { "".to_string() } else { r.pick(&["Coverage", "Dominance", "Pointing", "Ordering", "LeftToken", "RightToken", "PartOf"]).to_string() };
            let name = if r.p(65) || comps.is_empty() { None } else { Some(r.pick(&comps).2.clone()) };
            let ans = w.each(r, "r", |s| {
                let t = if ty.is_empty() { None } else { Some(AnnotationComponentType::from_str(&ty)?) };
                let mut v: Vec<Comp> = s
                    .list_components(&n, t, name.as_deref())?
                    .into_iter()
                    .map(|c| (c.get_type().to_string(), c.layer.to_string(), c.name.to_string()))
                    .collect();
                v.sort();
                Ok(json!(v))
            });
            w.ev.push(json!({"e":"Comps","c":n,"ty":ty,"name":name.clone().unwrap_or_default(),"any":name.is_none(),"ans":ans}));
        }
        3..=6 => {
            let m = r.n(3);
            let ans = w.each(r, "r", |s| Ok(annos(s.list_node_annotations(&n, m > 0, m == 2)?)));
            w.ev.push(json!({"e":"NAnnos","c":n,"mode":m,"ans":ans}));
        }
        _ => {
            let labelled: Vec<Comp> = c.ops.iter().filter_map(|o| if let Op::AEL(_, _, c, _, _, _) = o { Some(c.clone()) } else { None }).collect();
            let cc = if r.p(4) || comps.is_empty() { comp("Pointing", "x", "nope") } else if r.p(60) && !labelled.is_empty() { r.pick(&labelled).clone() } else { r.pick(&comps).clone() };
            let m = r.n(3);
            let ans = w.each(r, "r", |s| Ok(annos(s.list_edge_annotations(&n, &real_comp(&cc), m > 0, m == 2)?)));
            w.ev.push(json!({"e":"EAnnos","c":n,"comp":comp_json(&cc),"mode":m,"ans":ans}));
        }
    }
}

fn annos(v: Vec<graphannis::graph::Annotation>) -> Value {
    let mut v: Vec<(String, String, String)> = v.into_iter().map(|a| (a.key.ns.to_string(), a.key.name.to_string(), a.val.to_string())).collect();
    v.sort();
    json!(v)
}

/// changes of a corpus for which only the listings are asked
fn churn(w: &mut World, r: &mut Rng) -> R<()> {
    let n = r.pick(&w.names).clone();
    let c = w.corpora.get_mut(&n).unwrap();
    let mut l = vec![];
    for _ in 0..r.range(1, 6) {
        if c.ops.is_empty() {
            break;
        }
        let o = r.pick(&c.ops).clone();
        let o2 = match o {
            Op::AL(x, ns, nm, _) if ns != "annis" => if r.p(60) { Op::DL(x, ns, nm) } else { Op::AL(x, ns, nm, r.pick(&["NN", "VV", "zz"]).to_string()) },
            Op::AEL(s, t, c, ns, nm, _) => if r.p(60) { Op::DEL(s, t, c, ns, nm) } else { Op::AEL(s, t, c, ns, nm, "zz".into()) },
            Op::AE(s, t, cc) if cc.0 == "Pointing" || cc.0 == "PartOf" => {
                if r.p(30) {
                    // all edges of the component
                    for o in &c.ops {
                        if let Op::AE(a, b, x) = o && *x == cc && (a != &s || b != &t) {
                            l.push(Op::DE(a.clone(), b.clone(), x.clone()));
                        }
                    }
                }
                Op::DE(s, t, cc)
            }
            Op::AN(x, _) if r.p(20) && c.nodes.contains(&x) && !c.tokens.contains(&x) => Op::DN(x),
            _ => continue,
        };
        l.push(o2);
    }
    // nothing else may refer to a node that does not exist any more
    let mut gone = BTreeSet::new();
    let mut ok = vec![];
    for o in l {
        let refs: Vec<String> = match &o {
            Op::DN(x) | Op::DL(x, _, _) | Op::AL(x, _, _, _) => vec![x.clone()],
            Op::DE(a, b, _) | Op::DEL(a, b, _, _, _) | Op::AEL(a, b, _, _, _, _) => vec![a.clone(), b.clone()],
            _ => vec![],
        };
        if refs.iter().any(|x| gone.contains(x)) {
            continue;
        }
        if let Op::DN(x) = &o {
            gone.insert(x.clone());
        }
        ok.push(o);
    }
    // keep the corpus description in step
    let mentions = |o: &Op| match o {
        Op::AN(x, _) | Op::AL(x, _, _, _) => gone.contains(x),
        Op::AE(a, b, _) | Op::AEL(a, b, _, _, _, _) => gone.contains(a) || gone.contains(b),
        _ => false,
    };
    c.ops.retain(|o| !mentions(o));
    c.nodes.retain(|x| !gone.contains(x));
    if ok.is_empty() {
        return Ok(());
    }
    w.update(r, &n, &ok)
}

fn percent_decoded(s: &str) -> String {
    let b = s.as_bytes();
    let mut res = vec![];
    let mut i = 0;
    while i < b.len() {
        let hex = |x: u8| (x as char).to_digit(16);
        if b[i] == b'%' && i + 2 < b.len() + 0 && let (Some(h), Some(l)) = (hex(b[i + 1]), hex(b[i + 2])) {
            res.push((h * 16 + l) as u8);
            i += 3;
        } else {
            res.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&res).to_string()
}
fn old_encoded(s: &str) -> String {
    let part = |p: &str| {
        let mut res = String::new();
        for b in percent_decoded(p).bytes() {
            if b < 32 || b >= 127 || b" \"<>`?{}%/".contains(&b) {
                res += &format!("%{b:02X}");
            } else {
                res.push(b as char);
            }
        }
        res
    };
    s.split('/').map(part).collect::<Vec<_>>().join("/")
}
/// how old queries write and compare names; the order of the locale is the one of the C library
fn old_names(names: &BTreeSet<String>) -> (Value, Value) {
    let parts: Vec<(String, usize, String, String)> = names
        .iter()
        .map(|n| {
            let (p, l) = n.rsplit_once('#').unwrap_or((n, ""));
            let path: Vec<&str> = p.split('/').filter(|x| !x.is_empty()).collect();
            (n.clone(), path.len(), path.last().map(|x| percent_decoded(x)).unwrap_or_default(), l.to_string())
        })
        .collect();
    let cmp = |a: &String, b: &String| {
        let (x, y) = (std::ffi::CString::new(a.as_str()).unwrap(), std::ffi::CString::new(b.as_str()).unwrap());
        unsafe { libc::strcoll(x.as_ptr(), y.as_ptr()) }.cmp(&0)
    };
    let plain: BTreeSet<String> = parts.iter().flat_map(|p| [p.2.clone(), p.3.clone()]).collect();
    let plain: Vec<String> = plain.into_iter().collect();
    let mut loc = plain.clone();
    loc.sort_by(cmp);
    let mut lrank = BTreeMap::new();
    let mut k = 0;
    for (i, s) in loc.iter().enumerate() {
        if i > 0 && cmp(&loc[i - 1], s) != std::cmp::Ordering::Equal {
            k += 1;
        }
        lrank.insert(s.clone(), k);
    }
    let prank = |s: &String| plain.binary_search(s).unwrap();
    let srt: serde_json::Map<String, Value> = parts
        .iter()
        .map(|p| (p.0.clone(), json!({"len": p.1, "doc": lrank[&p.2], "name": lrank[&p.3], "docd": prank(&p.2), "named": prank(&p.3)})))
        .collect();
    let nenc: serde_json::Map<String, Value> = names.iter().map(|n| (n.clone(), json!(old_encoded(n)))).collect();
    (Value::Object(nenc), Value::Object(srt))
}

fn trace(seed: u64, profile: &str) -> R<Value> {
    let mut r = Rng::new(seed);
    let o = Opts {
        metadata: profile == "old",
        min_tok: 1,
        max_tok: if profile == "sub" { r.range(3, 9) } else { r.range(2, 6) },
        discontinuous: r.p(35),
        plain_names: r.p(70),
        docs: if profile == "list" { 2 } else { 3 },
        no_structure: 8,
        seg_across: false,
    };
    let mut w = match guarded(|| World::new(&mut r, o, !matches!(profile, "sub" | "list"))) {
        Ok(w) => w,
        Err(e) => return Ok(json!({"id": seed, "cp": {"": []}, "enc": {"": ""}, "ev": [{"e":"Fail","what":e}]})),
    };
    for _ in 0..match profile { "count" => r.range(6, 10), _ => r.range(5, 8) } {
        match profile {
            "count" => ev_count(&mut w, &mut r)?,
            "find" => ev_find(&mut w, &mut r),
            "freq" => ev_freq(&mut w, &mut r),
            "old" => match r.n(10) {
                0..=4 => ev_find(&mut w, &mut r),
                5..=7 => ev_count(&mut w, &mut r)?,
                8 => ev_freq(&mut w, &mut r),
                _ => ev_sub(&mut w, &mut r),
            },
            "sub" => ev_sub(&mut w, &mut r),
            _ => {
                if r.p(50) {
                    if let Err(e) = guarded(|| churn(&mut w, &mut r)) {
                        w.ev.push(json!({"e":"Fail","what":e}));
                        break;
                    }
                }
                ev_list(&mut w, &mut r)
            }
        }
    }
    let cp: serde_json::Map<String, Value> = w.cp.iter().map(|s| (s.clone(), json!(s.chars().map(|c| c as u32).collect::<Vec<_>>()))).collect();
    let enc: serde_json::Map<String, Value> = w.cp.iter().map(|s| (s.clone(), json!(encoded(s)))).collect();
    if w.old {
        let (nenc, srt) = old_names(&w.cp);
        return Ok(json!({"id": seed, "cp": cp, "enc": enc, "nenc": nenc, "srt": srt, "ev": w.ev}));
    }
    Ok(json!({"id": seed, "cp": cp, "enc": enc, "ev": w.ev}))
}

pub fn run(a: &Args) -> R<()> {
    let mut out = Out::create(&a.s("out", "/dev/stdout"))?;
    let n = a.u("n", 10);
    let seed = a.u("seed", 1);
    let shards = a.u("shards", 1);
    let profile = a.s("profile", "find");
    let only = a.u("only", 0);
    if only > 0 {
        return out.line(&trace(only, &profile)?);
    }
    for i in 0..n.div_ceil(shards) {
        let s = seed * 1_000_003 + i;
        match guarded(|| trace(s, &profile)) {
            Ok(v) => out.line(&v)?,
            Err(e) => return Err(e.into()),
        }
    }
    Ok(())
}
