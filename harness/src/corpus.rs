//! Random small linguistic corpora (as update lists) and random AQL queries over them.
use crate::annodrv::Re;
use crate::common::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Default)]
pub struct Corpus {
    pub ops: Vec<Op>,
    pub tokens: Vec<String>,
    /// all linguistic nodes
    pub nodes: Vec<String>,
    pub docs: Vec<String>,
    pub root: String,
    pub corpora: Vec<String>,
    /// (ns, name, value)
    pub labels: BTreeSet<(String, String, String)>,
    pub dom_names: Vec<String>,
    pub ptr_names: Vec<String>,
    pub segs: Vec<String>,
    pub eannos: BTreeSet<(String, String, String)>,
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// labels only used for documents, and documents below documents
    pub metadata: bool,
    pub min_tok: usize,
    pub max_tok: usize,
    pub discontinuous: bool,
    pub plain_names: bool,
    pub docs: usize,
    /// leave out the corpus structure with this probability
    pub no_structure: usize,
    /// segmentations may go on in the next text of the document
    pub seg_across: bool,
}

pub fn ordc() -> Comp {
    comp("Ordering", "annis", "")
}
pub fn partc() -> Comp {
    comp("PartOf", "annis", "")
}
pub const TOKVALS: [&str; 6] = ["a", "b", "the", "house", "Haus", "ä.b"];

impl Corpus {
    fn label(&mut self, n: &str, ns: &str, name: &str, v: &str) {
        self.ops.push(Op::AL(n.into(), ns.into(), name.into(), v.into()));
        self.labels.insert((ns.into(), name.into(), v.into()));
    }
    fn elabel(&mut self, s: &str, t: &str, c: &Comp, ns: &str, name: &str, v: &str) {
        self.ops.push(Op::AEL(s.into(), t.into(), c.clone(), ns.into(), name.into(), v.into()));
        self.eannos.insert((ns.into(), name.into(), v.into()));
    }
    pub fn random(r: &mut Rng, root: &str, o: Opts) -> Corpus {
        let mut c = Corpus { root: root.into(), ..Default::default() };
        let structure = !r.p(o.no_structure);
        let ndocs = r.range(1, o.docs.max(1));
        let mut parents = vec![];
        if structure {
            c.ops.push(Op::AN(root.into(), "corpus".into()));
            c.corpora.push(root.into());
            if r.p(40) {
                c.label(root, "", "genre", "news");
            }
            if o.metadata && r.p(50) {
                let v = *r.pick(&["3.3", "3.2"]);
                c.label(root, "annis", "relannis-version", v);
            }
            parents.push(root.to_string());
            if r.p(30) {
                let s = format!("{root}/sub");
                c.ops.push(Op::AN(s.clone(), "corpus".into()));
                c.ops.push(Op::AE(s.clone(), root.into(), partc()));
                c.corpora.push(s.clone());
                if r.p(50) {
                    c.label(&s, "", "genre", "blog");
                }
                if o.metadata && r.p(40) {
                    c.label(&s, "annis", "doc", "doc0");
                }
                parents.push(s);
                if r.p(if o.metadata { 80 } else { 40 }) {
                    let s = format!("{root}/sub-1");
                    c.ops.push(Op::AN(s.clone(), "corpus".into()));
                    c.ops.push(Op::AE(s.clone(), root.into(), partc()));
                    c.corpora.push(s.clone());
                    parents.push(s);
                }
            }
        }
        for d in 0..ndocs {
            let p = if parents.is_empty() { root.to_string() } else { r.pick(&parents).clone() };
            let same = if o.metadata { format!("{p}/{}", r.pick(&["doc0", "Doc0", "do-c0", "d%20oc0", "d%2Foc0", "ö0", "ä x", "d{`0"])) } else { String::new() };
            let doc = if o.metadata && !o.plain_names && !c.docs.contains(&same) {
                same
            } else if o.plain_names { format!("{p}/doc{d}") } else { format!("{p}/{}{d}", r.pick(&["doc", "d", "ö x"])) };
            if structure {
                c.ops.push(Op::AN(doc.clone(), "corpus".into()));
                c.ops.push(Op::AE(doc.clone(), p.clone(), partc()));
                c.label(&doc, "annis", "doc", &format!("doc{d}"));
                if r.p(60) {
                    let v = *r.pick(&["news", "blog", "x"]);
                    c.label(&doc, "", "genre", v);
                }
                if o.metadata && r.p(50) {
                    let v = *r.pick(&["news", "x"]);
                    c.label(&doc, "m", "genre", v);
                }
                c.corpora.push(doc.clone());
            }
            c.docs.push(doc.clone());
            let mut holder = doc.clone();
            if structure && r.p(25) {
                let t = format!("{doc}#text");
                c.ops.push(Op::AN(t.clone(), "datasource".into()));
                c.ops.push(Op::AE(t.clone(), doc.clone(), partc()));
                holder = t;
            }
            c.text(r, &doc, &holder, structure, o);
        }
        // pointing relations, also across texts
        let all = c.nodes.clone();
        if !all.is_empty() && r.p(75) {
            for (layer, name) in [("dep", "dep"), ("", "anaph"), ("other", "dep")] {
                if !r.p(55) {
                    continue;
                }
                let cc = comp("Pointing", layer, name);
                let mut any = false;
                for _ in 0..r.range(1, 5) {
                    let s = r.pick(&all).clone();
                    let t = r.pick(&all).clone();
                    if s == t {
                        continue;
                    }
                    any = true;
                    c.ops.push(Op::AE(s.clone(), t.clone(), cc.clone()));
                    if r.p(50) {
                        let v = *r.pick(&["SB", "OB", "S"]);
                        let ns = *r.pick(&["", "dep"]);
                        c.elabel(&s, &t, &cc, ns, "func", v);
                    }
                }
                if any && !c.ptr_names.contains(&name.to_string()) {
                    c.ptr_names.push(name.into());
                }
            }
        }
        c
    }
    fn node(&mut self, n: &str, holder: &str, structure: bool, r: &mut Rng) {
        self.ops.push(Op::AN(n.into(), "node".into()));
        if structure && r.p(92) {
            self.ops.push(Op::AE(n.into(), holder.into(), partc()));
        }
        self.nodes.push(n.into());
    }
    fn annos(&mut self, n: &str, r: &mut Rng, names: &[(&str, &str)]) {
        for (ns, nm) in names {
            if r.p(45) {
                let v = *r.pick(&["NN", "VV", "N", "NP", ""]);
                self.label(n, ns, nm, v);
            }
        }
    }
    fn text(&mut self, r: &mut Rng, doc: &str, holder: &str, structure: bool, o: Opts) {
        let nt = r.range(o.min_tok.max(1), o.max_tok);
        let mut toks = vec![];
        for i in 0..nt {
            let t = format!("{doc}#t{i}");
            self.node(&t, holder, structure, r);
            let v = *r.pick(&TOKVALS);
            self.label(&t, "annis", "tok", v);
            self.annos(&t, r, &[("", "pos"), ("x", "pos"), ("y", "pos")]);
            toks.push(t);
        }
        // usually one chain, sometimes two texts in one document
        let cut = if r.p(12) { r.n(nt) } else { nt };
        let mut chain = vec![0usize; nt];
        for i in 1..nt {
            chain[i] = if i == cut { chain[i - 1] + 1 } else { chain[i - 1] };
            if i != cut {
                self.ops.push(Op::AE(toks[i - 1].clone(), toks[i].clone(), ordc()));
            }
        }
        let mut cov: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
        for (i, t) in toks.iter().enumerate() {
            cov.insert(t.clone(), BTreeSet::from([i]));
        }
        let fits = |s: &BTreeSet<usize>| -> bool {
            if s.is_empty() {
                return true;
            }
            let (a, b) = (*s.first().unwrap(), *s.last().unwrap());
            chain[a] == chain[b] && (o.discontinuous || b - a + 1 == s.len())
        };
        // spans
        let ns = r.range(0, 4);
        for i in 0..ns {
            let n = format!("{doc}#s{i}");
            self.node(&n, holder, structure, r);
            self.annos(&n, r, &[("", "pos"), ("x", "ent"), ("y", "ent")]);
            let cc = if r.p(70) { comp("Coverage", "annis", "") } else { comp("Coverage", "l", "") };
            let a = r.n(nt);
            let b = r.range(a, (a + 3).min(nt - 1));
            let mut set = BTreeSet::new();
            for k in a..=b {
                if o.discontinuous && k != a && r.p(30) {
                    continue;
                }
                set.insert(k);
            }
            if r.p(8) {
                set.clear();
            }
            if !fits(&set) {
                set = BTreeSet::from([a]);
            }
            for k in &set {
                self.ops.push(Op::AE(n.clone(), toks[*k].clone(), cc.clone()));
            }
            cov.insert(n, set);
        }
        // segmentation
        if r.p(35) {
            let seg = *r.pick(&["norm", "dipl"]);
            let mut prev: Option<String> = None;
            let mut a = 0;
            let mut i = 0;
            while a < nt {
                let mut b = r.range(a, (a + 1).min(nt - 1));
                if chain[a] != chain[b] {
                    b = a;
                }
                let n = format!("{doc}#{seg}{i}");
                self.node(&n, holder, structure, r);
                let v = *r.pick(&TOKVALS);
                self.label(&n, "annis", "tok", v);
                self.label(&n, "default_ns", seg, v);
                let set: BTreeSet<usize> = (a..=b).collect();
                for k in &set {
                    self.ops.push(Op::AE(n.clone(), toks[*k].clone(), comp("Coverage", "annis", "")));
                }
                cov.insert(n.clone(), set);
                if !o.seg_across && a > 0 && chain[a] != chain[a - 1] {
                    prev = None;
                }
                if let Some(p) = prev {
                    self.ops.push(Op::AE(p, n.clone(), comp("Ordering", "default_ns", seg)));
                }
                prev = Some(n);
                a = b + 1;
                i += 1;
                if r.p(10) {
                    break;
                }
            }
            if !self.segs.contains(&seg.to_string()) {
                self.segs.push(seg.into());
            }
        }
        // trees
        let nd = r.range(0, 4);
        let mut lower: Vec<String> = toks.clone();
        for s in 0..ns {
            lower.push(format!("{doc}#s{s}"));
        }
        for i in 0..nd {
            let n = format!("{doc}#c{i}");
            self.node(&n, holder, structure, r);
            self.annos(&n, r, &[("", "cat"), ("x", "cat")]);
            let mut set = BTreeSet::new();
            for _ in 0..r.range(1, 3) {
                let k = r.pick(&lower).clone();
                let mut u: BTreeSet<usize> = set.clone();
                u.extend(cov[&k].iter().copied());
                if !fits(&u) {
                    continue;
                }
                let u = Some(u);
                for (layer, name) in [("syn", ""), ("syn", "edge"), ("syn", "secedge"), ("m", "edge")] {
                    if !r.p(if name.is_empty() { 75 } else { 30 }) {
                        continue;
                    }
                    if let Some(u) = &u {
                        set = u.clone();
                    }
                    let cc = comp("Dominance", layer, name);
                    self.ops.push(Op::AE(n.clone(), k.clone(), cc.clone()));
                    if r.p(40) {
                        let v = *r.pick(&["SB", "OB", "S"]);
                        let ns = *r.pick(&["", "syn"]);
                        self.elabel(&n, &k, &cc, ns, "func", v);
                    }
                    if !self.dom_names.contains(&name.to_string()) {
                        self.dom_names.push(name.into());
                    }
                }
            }
            cov.insert(n.clone(), set);
            lower.push(n);
        }
        self.tokens.extend(toks);
    }
    /// every text that occurs as a value, with its code points
    pub fn has_edges(&self, ty: &str, layer: Option<&str>, name: &str) -> bool {
        self.ops.iter().any(|o| matches!(o, Op::AE(_, _, c) if c.0 == ty && layer.is_none_or(|l| c.1 == l) && c.2 == name))
    }
    pub fn code_points(&self, extra: &[Op]) -> Value {
        let mut m = serde_json::Map::new();
        for o in self.ops.iter().chain(extra) {
            let v = match o {
                Op::AN(n, t) => {
                    m.insert(n.clone(), json!(n.chars().map(|c| c as u32).collect::<Vec<_>>()));
                    t
                }
                Op::AL(_, _, _, v) | Op::AEL(_, _, _, _, _, v) => v,
                _ => continue,
            };
            m.insert(v.clone(), json!(v.chars().map(|c| c as u32).collect::<Vec<_>>()));
        }
        Value::Object(m)
    }
}

// ------------------------------------------------------------------ queries

#[derive(Clone)]
pub enum Kind {
    Any,
    Eq(String),
    Ne(String),
    Rx(Re),
    NRx(Re),
}
impl Kind {
    fn json(&self) -> (Value, Value) {
        match self {
            Kind::Any => (json!("any"), json!("")),
            Kind::Eq(v) => (json!("eq"), json!(v)),
            Kind::Ne(v) => (json!("ne"), json!(v)),
            Kind::Rx(r) => (json!("re"), r.json()),
            Kind::NRx(r) => (json!("nre"), r.json()),
        }
    }
    fn text(&self) -> String {
        match self {
            Kind::Any => String::new(),
            Kind::Eq(v) => format!("=\"{v}\""),
            Kind::Ne(v) => format!("!=\"{v}\""),
            Kind::Rx(r) => format!("=/{}/", r.text()),
            Kind::NRx(r) => format!("!=/{}/", r.text()),
        }
    }
    pub fn random(r: &mut Rng, words: &[String]) -> Kind {
        match r.n(20) {
            0..=6 => Kind::Any,
            7..=11 => Kind::Eq(r.pick(words).clone()),
            12..=13 => Kind::Ne(r.pick(words).clone()),
            14..=17 => Kind::Rx(Re::random(r, words, 2)),
            _ => Kind::NRx(Re::random(r, words, 1)),
        }
    }
}

#[derive(Clone)]
pub enum Spec {
    Node,
    Tok,
    TokV(Kind),
    Val(Kind),
    Anno(Option<String>, String, Kind),
}
impl Spec {
    pub fn json(&self) -> Value {
        match self {
            Spec::Node => json!(["node"]),
            Spec::Tok => json!(["tok"]),
            Spec::TokV(k) => json!(["tokv", k.json().0, k.json().1]),
            Spec::Val(k) => json!(["val", k.json().0, k.json().1]),
            Spec::Anno(ns, n, k) => json!(["anno", ns.clone().unwrap_or("*".into()), n, k.json().0, k.json().1]),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Spec::Node => "node".into(),
            Spec::Tok => "tok".into(),
            Spec::TokV(k) => format!("tok{}", k.text()),
            Spec::Val(k) => k.text()[1..].to_string(),
            Spec::Anno(ns, n, k) => format!("{}{n}{}", ns.as_ref().map(|s| format!("{s}:")).unwrap_or_default(), k.text()),
        }
    }
    pub fn random(r: &mut Rng, c: &Corpus) -> Spec {
        let words = |f: &dyn Fn(&(String, String, String)) -> bool| -> Vec<String> {
            let mut v: Vec<String> = c.labels.iter().filter(|l| f(l)).map(|l| l.2.clone()).collect();
            v.sort();
            v.dedup();
            v.retain(|x| !x.contains('"'));
            if v.is_empty() {
                v.push("zz".into());
            }
            v
        };
        let tokw = words(&|l| l.0 == "annis" && l.1 == "tok");
        match r.n(20) {
            0..=2 => Spec::Node,
            3..=6 => Spec::Tok,
            7..=8 => loop {
                let k = Kind::random(r, &tokw);
                if !matches!(k, Kind::Any) {
                    return Spec::TokV(k);
                }
            },
            9..=10 => Spec::Val(if r.p(60) { Kind::Eq(r.pick(&tokw).clone()) } else { Kind::Rx(Re::random(r, &tokw, 2)) }),
            11 => Spec::Anno(Some("annis".into()), "node_name".into(), if r.p(70) && !c.nodes.is_empty() { Kind::Eq(r.pick(&c.nodes).clone()) } else { Kind::Any }),
            12 => Spec::Anno(r.pick(&[None, Some("annis".to_string())]).clone(), "node_type".into(), Kind::random(r, &["node".into(), "corpus".into()])),
            13 => Spec::Anno(Some("annis".into()), "doc".into(), Kind::random(r, &["doc0".into(), "doc1".into()])),
            _ => {
                let l: Vec<_> = c.labels.iter().filter(|l| l.0 != "annis" && !l.2.contains('"')).cloned().collect();
                if l.is_empty() {
                    return Spec::Tok;
                }
                let (ns, n, _) = r.pick(&l).clone();
                let w = words(&|l| l.1 == n);
                let ns = if ns.is_empty() || r.p(60) { None } else { Some(ns) };
                let n = if r.p(4) { "nope".into() } else { n };
                Spec::Anno(ns, n, Kind::random(r, &w))
            }
        }
    }
}

#[derive(Clone)]
pub enum Rel {
    Edge(bool, String, Option<(usize, i64)>, Option<(Option<String>, String, Kind)>),
    /// near?, segmentation
    Prec(bool, String, Option<(usize, i64)>),
    Part(Option<(usize, i64)>),
    Simple(&'static str),
    Cmp(bool),
}
fn range_text(x: &Option<(usize, i64)>, comma: bool) -> String {
    let c = if comma { "," } else { " " };
    match x {
        None => String::new(),
        Some((_, -1)) => "*".into(),
        Some((a, b)) if *a as i64 == *b => format!("{c}{a}"),
        Some((a, b)) => format!("{c}{a},{b}"),
    }
}
fn lo_hi(x: &Option<(usize, i64)>) -> (i64, i64) {
    match x {
        None => (1, 1),
        Some((_, -1)) => (1, -1),
        Some((a, b)) => (*a as i64, *b),
    }
}
impl Rel {
    pub fn json(&self) -> Value {
        match self {
            Rel::Edge(ptr, n, d, a) => {
                let (lo, hi) = lo_hi(d);
                let an = match a {
                    None => json!([]),
                    Some((ns, n, k)) => json!([ns.clone().unwrap_or("*".into()), n, k.json().0, k.json().1]),
                };
                json!([if *ptr { "ptr" } else { "dom" }, n, lo, hi, an])
            }
            Rel::Prec(near, s, d) => {
                let (lo, hi) = lo_hi(d);
                json!([if *near { "near" } else { "prec" }, s, lo, hi])
            }
            Rel::Part(d) => {
                let (lo, hi) = lo_hi(d);
                json!(["part", lo, hi])
            }
            Rel::Simple(s) => json!([match *s { "_o_" => "o", "_i_" => "i", "_=_" => "eq", "_l_" => "l", "_r_" => "r", _ => "ident" }]),
            Rel::Cmp(eq) => json!([if *eq { "==" } else { "!=" }]),
        }
    }
    pub fn text(&self, comma: bool) -> String {
        match self {
            Rel::Edge(ptr, n, d, a) => {
                let a = match a {
                    None => String::new(),
                    Some((ns, n, k)) => format!("[{}{n}{}]", ns.as_ref().map(|s| format!("{s}:")).unwrap_or_default(), k.text()),
                };
                format!("{}{n}{}{a}", if *ptr { "->" } else { ">" }, range_text(d, comma))
            }
            Rel::Prec(near, s, d) => format!("{}{s}{}", if *near { "^" } else { "." }, range_text(d, comma)),
            Rel::Part(d) => format!("@{}", range_text(d, comma)),
            Rel::Simple(s) => s.to_string(),
            Rel::Cmp(eq) => if *eq { "==" } else { "!=" }.into(),
        }
    }
    /// ranges with zero are only asked for components which have edges
    pub fn random(r: &mut Rng, c: &Corpus, zero: bool) -> Rel {
        let mut x = Rel::random_any(r, c, zero);
        let up = |d: &mut Option<(usize, i64)>| if let Some((lo, hi)) = d && *lo == 0 { *lo = 1; if *hi == 0 { *hi = 1 } };
        match &mut x {
            Rel::Edge(ptr, n, d, _) => if !c.has_edges(if *ptr { "Pointing" } else { "Dominance" }, None, n) { up(d) },
            Rel::Prec(_, s, d) => if !c.has_edges("Ordering", Some(if s.is_empty() { "annis" } else { "default_ns" }), s) { up(d) },
            Rel::Part(d) => if !c.has_edges("PartOf", None, "") { up(d) },
            _ => (),
        }
        x
    }
    fn random_any(r: &mut Rng, c: &Corpus, zero: bool) -> Rel {
        let dist = |r: &mut Rng| -> Option<(usize, i64)> {
            match r.n(10) {
                0..=3 => None,
                4..=6 => Some((1, -1)),
                _ => {
                    let lo = if zero && r.p(15) { 0 } else { r.range(1, 3) };
                    let hi = if r.p(3) { lo as i64 - 1 } else { r.range(lo, lo + 2) as i64 };
                    if hi < 0 { Some((1, 2)) } else { Some((lo, hi)) }
                }
            }
        };
        let edge = |r: &mut Rng, ptr: bool| -> Rel {
            let names = if ptr { &c.ptr_names } else { &c.dom_names };
            let n = if names.is_empty() || r.p(3) { if ptr { "dep".into() } else { String::new() } } else { r.pick(names).clone() };
            if r.p(30) {
                let w: Vec<String> = vec!["SB".into(), "OB".into(), "S".into()];
                let k = loop {
                    let k = Kind::random(r, &w);
                    if !matches!(k, Kind::Any) {
                        break k;
                    }
                };
                let ns = if r.p(60) { None } else { Some(r.pick(&["dep", "syn"]).to_string()) };
                return Rel::Edge(ptr, n, None, Some((ns, "func".into(), k)));
            }
            let d = dist(r);
            Rel::Edge(ptr, n, d, None)
        };
        match r.n(24) {
            0..=4 => edge(r, false),
            5..=7 => edge(r, true),
            8..=11 => {
                let s = if !c.segs.is_empty() && r.p(30) { r.pick(&c.segs).clone() } else { String::new() };
                let d = dist(r);
                Rel::Prec(false, s, d)
            }
            12..=13 => {
                let s = if !c.segs.is_empty() && r.p(30) { r.pick(&c.segs).clone() } else { String::new() };
                let d = dist(r);
                Rel::Prec(true, s, d)
            }
            14..=15 => {
                let d = dist(r);
                Rel::Part(d)
            }
            16..=17 => Rel::Simple("_o_"),
            18..=19 => Rel::Simple("_i_"),
            20 => Rel::Simple("_=_"),
            21 => Rel::Simple("_l_"),
            22 => Rel::Simple("_r_"),
            _ => Rel::Simple("_ident_"),
        }
    }
}

#[derive(Clone)]
pub enum F {
    And(Vec<F>),
    Or(Vec<F>),
    N(String, Spec, bool),
    B(String, Rel, String, bool),
    U(String, usize, i64),
    /// `meta::name="value"` of old queries
    M(Spec),
    /// `spec op spec op #ref ...`: operands written in place
    Chain(Vec<Opnd>, Vec<(Rel, bool)>),
}
#[derive(Clone)]
pub enum Opnd {
    Ref(String),
    Lit(String, Spec, bool),
}

pub struct Render<'a> {
    pub r: &'a mut Rng,
    pos: usize,
}
impl<'a> Render<'a> {
    pub fn new(r: &'a mut Rng) -> Render<'a> {
        Render { r, pos: 0 }
    }
    fn sp(&mut self) -> &'static str {
        if self.r.p(15) { "  " } else { " " }
    }
    fn lit(&mut self, v: &str, s: &Spec, opt: bool, named: bool) -> (String, Value) {
        self.pos += 1;
        let t = format!("{}{}{}", if named { format!("{v}#") } else { String::new() }, s.text(), if opt { "?" } else { "" });
        (t, json!(["N", self.pos, v, s.json(), opt]))
    }
    pub fn go(&mut self, f: &F, top: bool) -> (String, Value) {
        match f {
            F::And(v) => {
                let mut t = vec![];
                let mut j = vec![json!("and")];
                for x in v {
                    let (a, b) = self.go(x, false);
                    t.push(if matches!(x, F::Or(_)) { format!("({a})") } else { a });
                    j.push(b);
                }
                let sp = self.sp();
                (t.join(&format!("{sp}& ")), Value::Array(j))
            }
            F::Or(v) => {
                let mut t = vec![];
                let mut j = vec![json!("or")];
                for x in v {
                    let (a, b) = self.go(x, false);
                    t.push(if matches!(x, F::And(_)) && (!top || self.r.p(50)) { format!("({a})") } else { a });
                    j.push(b);
                }
                (t.join(" | "), Value::Array(j))
            }
            F::N(v, s, o) => self.lit(v, s, *o, true),
            F::B(a, rel, b, neg) => {
                let comma = self.r.p(50);
                (format!("#{a} {}{} #{b}", if *neg { "!" } else { "" }, rel.text(comma)), json!(["B", a, rel.json(), b, neg]))
            }
            F::M(s) => (format!("meta::{}", s.text()), json!(["M", s.json()])),
            F::U(v, lo, hi) => {
                let x = Some((*lo, *hi));
                let t = range_text(&x, false);
                let (lo, hi) = lo_hi(&x);
                (format!("#{v}:arity={}", t.trim()), json!(["U", v, lo, hi]))
            }
            F::Chain(ops, rels) => {
                let mut t = String::new();
                let mut j = vec![json!("and")];
                let mut names = vec![];
                for (i, o) in ops.iter().enumerate() {
                    if i > 0 {
                        let (rel, neg) = &rels[i - 1];
                        let comma = self.r.p(50);
                        t += &format!(" {}{} ", if *neg { "!" } else { "" }, rel.text(comma));
                    }
                    match o {
                        Opnd::Ref(v) => {
                            t += &format!("#{v}");
                            names.push(v.clone());
                        }
                        Opnd::Lit(v, s, opt) => {
                            // unnamed operands get their name from the specification only
                            let named = !v.starts_with('_');
                            let (a, b) = self.lit(v, s, *opt, named);
                            t += &a;
                            j.push(b);
                            names.push(v.clone());
                        }
                    }
                }
                for (i, (rel, neg)) in rels.iter().enumerate() {
                    j.push(json!(["B", names[i], rel.json(), names[i + 1], neg]));
                }
                (t, Value::Array(j))
            }
        }
    }
}

pub struct QOpts {
    pub max_nodes: usize,
    pub logic: bool,
    pub zero: bool,
}

fn names_of(f: &F, out: &mut Vec<String>) {
    match f {
        F::And(v) | F::Or(v) => v.iter().for_each(|x| names_of(x, out)),
        F::N(v, _, _) => out.push(v.clone()),
        F::Chain(o, _) => o.iter().for_each(|x| if let Opnd::Lit(v, _, _) = x { out.push(v.clone()) }),
        _ => {}
    }
}

/// A conjunction of leaves; variables get the prefix.
fn conj(r: &mut Rng, c: &Corpus, q: &QOpts, p: &str) -> Vec<F> {
    let k = match r.n(10) {
        0..=1 => 1,
        2..=5 => 2,
        6..=8 => 3,
        _ => 4,
    }
    .min(q.max_nodes);
    let mut fs: Vec<F> = vec![];
    let vars: Vec<String> = (0..k).map(|i| format!("{p}{i}")).collect();
    let specs: Vec<Spec> = (0..k).map(|_| Spec::random(r, c)).collect();
    let mut rels: Vec<(usize, Rel, usize)> = vec![];
    for i in 1..k {
        let j = r.n(i);
        let rel = Rel::random(r, c, q.zero);
        rels.push(if r.p(50) { (i, rel, j) } else { (j, rel, i) });
    }
    // write a path of relations in place
    if k >= 2 && r.p(45) {
        let (a, rel, b) = rels.remove(0);
        let named = r.p(50) || k > 2 || q.logic;
        let vn = |i: usize| if named { vars[i].clone() } else { format!("_{}", vars[i]) };
        let mut ops = vec![Opnd::Lit(vn(a), specs[a].clone(), false), Opnd::Lit(vn(b), specs[b].clone(), false)];
        let mut rr = vec![(rel, false)];
        let mut used = vec![a, b];
        if k > 2 && r.p(40) {
            if let Some(i) = rels.iter().position(|x| x.0 == b && !used.contains(&x.2)) {
                let (_, rel, d) = rels.remove(i);
                ops.push(Opnd::Lit(vn(d), specs[d].clone(), false));
                rr.push((rel, false));
                used.push(d);
            }
        }
        fs.push(F::Chain(ops, rr));
        for i in 0..k {
            if !used.contains(&i) {
                fs.push(F::N(vars[i].clone(), specs[i].clone(), false));
            }
        }
        if !named {
            return fs;
        }
    } else {
        for i in 0..k {
            fs.push(F::N(vars[i].clone(), specs[i].clone(), false));
        }
    }
    for (a, rel, b) in rels {
        fs.push(F::B(vars[a].clone(), rel, vars[b].clone(), false));
    }
    // further conditions
    if k >= 2 && r.p(25) {
        let a = r.n(k);
        let b = (a + 1 + r.n(k - 1)) % k;
        let rel = if r.p(45) { Rel::Cmp(r.p(60)) } else { Rel::random(r, c, q.zero) };
        fs.push(F::B(vars[a].clone(), rel, vars[b].clone(), false));
    }
    if r.p(12) {
        let lo = r.n(3);
        let hi = if r.p(40) { lo as i64 } else if r.p(30) { -1 } else { (lo + r.n(2)) as i64 };
        fs.push(F::U(vars[r.n(k)].clone(), lo, hi));
    }
    if q.logic && k >= 2 && r.p(35) {
        let a = r.n(k);
        let b = (a + 1 + r.n(k - 1)) % k;
        let rel = Rel::random(r, c, q.zero);
        fs.push(F::B(vars[a].clone(), rel, vars[b].clone(), true));
    }
    if q.logic && r.p(35) {
        let a = vars[r.n(k)].clone();
        let v = format!("{p}o");
        let s = Spec::random(r, c);
        let rel = Rel::random(r, c, q.zero);
        if r.p(40) {
            let x = Opnd::Lit(v, s, true);
            fs.push(if r.p(50) { F::Chain(vec![Opnd::Ref(a), x], vec![(rel, true)]) } else { F::Chain(vec![x, Opnd::Ref(a)], vec![(rel, true)]) });
        } else {
            let at = r.n(fs.len() + 1);
            fs.insert(at, F::N(v.clone(), s, true));
            fs.push(if r.p(50) { F::B(a, rel, v, true) } else { F::B(v, rel, a, true) });
        }
    }
    if r.p(50) {
        r.shuffle(&mut fs);
    }
    fs
}

pub fn query(r: &mut Rng, c: &Corpus, q: &QOpts) -> F {
    let mut fs = conj(r, c, q, "a");
    if q.logic && r.p(50) {
        // alternatives inside
        let i = r.n(fs.len());
        let alt = |r: &mut Rng, f: &F| -> Option<F> {
            match f {
                F::N(v, _, false) => Some(F::N(v.clone(), Spec::random(r, c), false)),
                F::B(a, Rel::Cmp(_), b, _) => Some(F::B(a.clone(), Rel::Cmp(r.p(50)), b.clone(), false)),
                F::B(a, _, b, false) => Some(if r.p(50) { F::B(b.clone(), Rel::random(r, c, q.zero), a.clone(), false) } else { F::B(a.clone(), Rel::random(r, c, q.zero), b.clone(), false) }),
                _ => None,
            }
        };
        let f = fs[i].clone();
        if let Some(g) = alt(r, &f) {
            let mut v = vec![f.clone(), g];
            if r.p(25) {
                v.extend(alt(r, &f));
            }
            // another node in one of the alternatives only
            if r.p(30) {
                let mut names = vec![];
                fs.iter().for_each(|x| names_of(x, &mut names));
                let t = match &f { F::N(v, _, _) => v.clone(), F::B(a, _, _, _) => a.clone(), _ => unreachable!() };
                let k = r.n(v.len());
                let extra = "ex".to_string();
                let rel = Rel::random(r, c, q.zero);
                v[k] = F::And(vec![v[k].clone(), F::N(extra.clone(), Spec::random(r, c), false), F::B(extra, rel, t, false)]);
            }
            fs[i] = F::Or(v);
        }
    }
    let one = if fs.len() == 1 { fs.pop().unwrap() } else { F::And(fs) };
    if q.logic && r.p(30) {
        let mut v = vec![one];
        for i in 0..r.range(1, 2) {
            let mut g = conj(r, c, q, ["b", "c"][i]);
            v.push(if g.len() == 1 { g.pop().unwrap() } else { F::And(g) });
        }
        return F::Or(v);
    }
    one
}

/// A query for the compatibility mode: more tree relations of the same node, conditions on the document
pub fn old_query(r: &mut Rng, c: &Corpus, q: &QOpts) -> F {
    loop {
        let f = query(r, c, q);
        let mut fs = match f {
            F::And(v) => v,
            f => vec![f],
        };
        let mut names = vec![];
        fs.iter().for_each(|x| if !matches!(x, F::Or(_)) { names_of(x, &mut names) });
        names.retain(|n| !n.starts_with('_') && !n.ends_with('o'));
        if names.len() > 1 && r.p(50) {
            let a = r.pick(&names).clone();
            let b = r.pick(&names).clone();
            let rel = loop {
                let x = Rel::random(r, c, false);
                if matches!(x, Rel::Edge(..)) {
                    break x;
                }
            };
            let neg = r.p(15);
            if a != b {
                fs.push(F::B(a, rel, b, neg));
            }
        }
        if r.p(55) {
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                let m = loop {
                    let (ns, n, w): (Option<String>, &str, Vec<String>) = match r.n(6) {
                        0..=2 => (None, "genre", vec!["news".into(), "blog".into(), "x".into()]),
                        3 => (Some("annis".into()), "doc", vec!["doc0".into(), "doc1".into()]),
                        4 => (None, "doc", vec!["doc0".into(), "doc1".into(), "doc2".into()]),
                        _ => (Some("m".into()), "genre", vec!["news".into(), "x".into()]),
                    };
                    let k = Kind::random(r, &w);
                    if !matches!(k, Kind::Any) {
                        break Spec::Anno(ns, n.into(), k);
                    }
                };
                // usually a condition of the whole query, sometimes written in one alternative only
                let i = r.n(fs.len());
                match &mut fs[i] {
                    F::Or(v) if r.p(60) => {
                        let k = r.n(v.len());
                        v[k] = F::And(vec![v[k].clone(), F::M(m)]);
                    }
                    _ => {
                        let at = r.n(fs.len() + 1);
                        fs.insert(at, F::M(m));
                    }
                }
            }
        }
        let f = if fs.len() == 1 { fs.pop().unwrap() } else { F::And(fs) };
        let j = Render::new(r).go(&f, true).1;
        let t = j.to_string();
        // the condition is defined for the first node of the match; the same relation twice is counted twice
        let mut b = vec![];
        relations(&j, &mut b);
        let n = b.len();
        b.sort();
        b.dedup();
        if n == b.len() && !(t.contains("[\"M\"") && t.contains("],true]")) {
            return f;
        }
    }
}
fn relations(j: &Value, out: &mut Vec<String>) {
    let a = j.as_array().unwrap();
    match a[0].as_str().unwrap() {
        "B" => out.push(j.to_string()),
        "and" | "or" => a[1..].iter().for_each(|x| relations(x, out)),
        _ => {}
    }
}

/// The same query written differently: the order of the conditions changes (not the one of the
/// nodes, since it determines the order in the result), and operands of symmetric relations swap.
pub fn rewrite(r: &mut Rng, f: &F) -> F {
    let sym = |rel: &Rel| matches!(rel, Rel::Prec(true, _, _) | Rel::Cmp(_)) || matches!(rel, Rel::Simple(s) if *s != "_i_");
    match f {
        F::Or(v) => F::Or(v.iter().map(|x| rewrite(r, x)).collect()),
        F::And(v) => {
            let (mut conds, mut nodes): (Vec<F>, Vec<F>) = (vec![], vec![]);
            for x in v {
                match x {
                    F::Chain(ops, rels) if ops.iter().all(|o| !matches!(o, Opnd::Lit(v, _, _) if v.starts_with('_'))) && r.p(60) => {
                        for o in ops {
                            if let Opnd::Lit(v, s, o) = o {
                                nodes.push(F::N(v.clone(), s.clone(), *o));
                            }
                        }
                        let nm = |o: &Opnd| match o { Opnd::Lit(v, _, _) | Opnd::Ref(v) => v.clone() };
                        for (i, (rel, neg)) in rels.iter().enumerate() {
                            conds.push(F::B(nm(&ops[i]), rel.clone(), nm(&ops[i + 1]), *neg));
                        }
                    }
                    F::B(..) | F::U(..) => conds.push(x.clone()),
                    x => nodes.push(rewrite(r, x)),
                }
            }
            for c in &mut conds {
                if let F::B(a, rel, b, _) = c && sym(rel) && r.p(50) {
                    std::mem::swap(a, b);
                }
            }
            r.shuffle(&mut conds);
            let mut res = nodes;
            for c in conds {
                let at = r.n(res.len() + 1);
                res.insert(at, c);
            }
            F::And(res)
        }
        x => x.clone(),
    }
}
