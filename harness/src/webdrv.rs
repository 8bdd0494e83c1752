//! Drives the web service (REST API) of the repository as a process of its own over loopback HTTP:
//! users with different tokens, changing groups, corpora that come and go, restarts.
use crate::common::*;
use graphannis::AnnotationGraph;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{CacheStrategy, ExportFormat, ImportFormat};
use serde_json::{Value, json};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

// ------------------------------------------------------------------ tokens

fn sha256(data: &[u8]) -> [u8; 32] {
    let mut k = [0u32; 64];
    let mut h = [0u32; 8];
    let (mut n, mut p) = (0, 2u64);
    let frac = |x: f64| ((x - x.floor()) * 4294967296.0) as u32;
    while n < 64 {
        if (2..p).take_while(|d| d * d <= p).all(|d| p % d != 0) {
            k[n] = frac((p as f64).cbrt());
            if n < 8 {
                h[n] = frac((p as f64).sqrt());
            }
            n += 1;
        }
        p += 1;
    }
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend(((data.len() as u64) * 8).to_be_bytes());
    for b in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16]
                .wrapping_add(s0)
                .wrapping_add(w[i - 7])
                .wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7]
                .wrapping_add(s1)
                .wrapping_add(ch)
                .wrapping_add(k[i])
                .wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v = [
                t1.wrapping_add(t2),
                v[0],
                v[1],
                v[2],
                v[3].wrapping_add(t1),
                v[4],
                v[5],
                v[6],
            ];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut r = [0u8; 32];
    for i in 0..8 {
        r[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    r
}

fn hmac(key: &[u8], data: &[u8]) -> [u8; 32] {
    let mut k = if key.len() > 64 {
        sha256(key).to_vec()
    } else {
        key.to_vec()
    };
    k.resize(64, 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend(data);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend(sha256(&i));
    sha256(&o)
}

fn b64(d: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..c.len() + 1 {
            s.push(A[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    s
}

/// how tokens are signed
#[derive(Clone)]
enum Sign {
    Hs(String),
    Rs(PathBuf, String),
}

impl Sign {
    fn alg(&self) -> &str {
        match self {
            Sign::Hs(_) => "HS256",
            Sign::Rs(..) => "RS256",
        }
    }
    fn sign(&self, text: &str) -> R<Vec<u8>> {
        Ok(match self {
            Sign::Hs(s) => hmac(s.as_bytes(), text.as_bytes()).to_vec(),
            Sign::Rs(key, _) => {
                let mut p = Command::new("openssl")
                    .args(["dgst", "-sha256", "-sign"])
                    .arg(key)
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .spawn()?;
                p.stdin.take().unwrap().write_all(text.as_bytes())?;
                let o = p.wait_with_output()?;
                if !o.status.success() {
                    return Err("openssl failed".into());
                }
                o.stdout
            }
        })
    }
    fn token(&self, header: Value, claims: &Value) -> R<String> {
        let t = format!(
            "{}.{}",
            b64(header.to_string().as_bytes()),
            b64(claims.to_string().as_bytes())
        );
        Ok(format!("{t}.{}", b64(&self.sign(&t)?)))
    }
}

/// a user: the value of the Authorization header and what the specification knows about it
#[derive(Clone)]
struct Who {
    header: Option<String>,
    j: Value,
}

fn now() -> i64 {
    SystemTime::now()
        .duration_since(UNIX_EPOCH)
        .unwrap()
        .as_secs() as i64
}

const GROUPS: [&str; 5] = ["anonymous", "g1", "g2", "admin", "g 3/ä"];

fn claims(r: &mut Rng, roles: &[&str], groups: &[&str]) -> Value {
    let mut c = json!({"sub": *r.pick(&["u", "admin", ""]), "exp": now() + 100_000});
    if !roles.is_empty() || r.p(30) {
        c["https://corpus-tools.org/annis/roles"] = json!(roles);
    }
    if !groups.is_empty() || r.p(30) {
        c["https://corpus-tools.org/annis/groups"] = json!(groups);
    }
    // claims with similar names have no meaning
    if r.p(15) {
        c["roles"] = json!(["admin"]);
        c["groups"] = json!(GROUPS);
        c["https://corpus-tools.org/annis/role"] = json!(["admin"]);
    }
    c
}

fn who(r: &mut Rng, s: &Sign, admin: Option<bool>) -> R<Who> {
    let none = |h: Option<String>| Who {
        header: h,
        j: json!({"h":"none","admin":false,"groups":[]}),
    };
    let mut gs: Vec<&str> = vec![];
    for g in GROUPS {
        if r.p(30) {
            gs.push(g);
        }
    }
    let roles: Vec<&str> = match admin {
        Some(true) => r.pick(&[vec!["admin"], vec!["x", "admin"]]).clone(),
        Some(false) => r
            .pick(&[
                vec![],
                vec!["user"],
                vec!["Admin"],
                vec!["administrator", "adm"],
            ])
            .clone(),
        None => r.pick(&[vec!["admin"], vec![], vec!["user"]]).clone(),
    };
    let is_admin = roles.contains(&"admin");
    let mut c = claims(r, &roles, &gs);
    let hd = json!({"alg": s.alg(), "typ": "JWT"});
    if admin == Some(true) || r.p(if admin == Some(false) { 90 } else { 55 }) {
        if r.p(12) {
            // the expiration date is optional
            c.as_object_mut().unwrap().remove("exp");
        }
        let t = s.token(hd, &c)?;
        let h = format!(
            "{}{t}",
            r.pick(&["Bearer ", "Bearer ", "bearer ", "Bearer  "])
        );
        return Ok(Who {
            header: Some(h),
            j: json!({"h":"good","admin":is_admin,"groups":gs}),
        });
    }
    if admin == Some(false) || r.p(40) {
        return Ok(none(if r.p(80) {
            None
        } else {
            Some("Basic YWRtaW46YWRtaW4=".into())
        }));
    }
    // tokens that must not be accepted
    let c = claims(r, &["admin"], &GROUPS);
    let mut old = c.clone();
    old["exp"] = json!(now() - 7200);
    let mut nosub = c.clone();
    nosub.as_object_mut().unwrap().remove("sub");
    let good = s.token(hd.clone(), &c)?;
    let parts: Vec<&str> = good.split('.').collect();
    let other = Sign::Hs(match s {
        Sign::Hs(_) => "wrong".into(),
        // the public key is no secret
        Sign::Rs(_, public) => public.clone(),
    });
    let t = match r.n(11) {
        0 => other.token(json!({"alg":"HS256","typ":"JWT"}), &c)?,
        1 => s.token(hd, &old)?,
        2 => s.token(hd, &nosub)?,
        3 => format!(
            "{}.{}.",
            b64(json!({"alg":"none","typ":"JWT"}).to_string().as_bytes()),
            parts[1]
        ),
        4 => format!(
            "{}.{}.{}",
            parts[0],
            b64(claims(r, &["admin", "x"], &GROUPS).to_string().as_bytes()),
            parts[2]
        ),
        5 => format!(
            "{}.{}.{}",
            parts[0],
            parts[1],
            b64(b"0123456789abcdef0123456789abcdef")
        ),
        6 => format!("{}.{}", parts[0], parts[1]),
        7 => s.token(json!({"alg":"HS384","typ":"JWT"}), &c)?,
        8 => "garbage".into(),
        9 => other.token(hd, &c)?,
        _ => "".into(),
    };
    Ok(Who {
        header: Some(format!("Bearer {t}")),
        j: json!({"h":"bad","admin":true,"groups":GROUPS}),
    })
}

// ------------------------------------------------------------------ HTTP

struct Resp {
    status: u64,
    body: Vec<u8>,
}

/// a request that gets no answer has the status 599
fn http(
    port: u16,
    method: &str,
    target: &str,
    w: Option<&Who>,
    body: Option<(&str, &[u8])>,
) -> R<Resp> {
    Ok(
        http_once(port, method, target, w, body).unwrap_or_else(|e| Resp {
            status: 599,
            body: e.to_string().into_bytes(),
        }),
    )
}

fn http_once(
    port: u16,
    method: &str,
    target: &str,
    w: Option<&Who>,
    body: Option<(&str, &[u8])>,
) -> R<Resp> {
    let mut s = TcpStream::connect(("127.0.0.1", port))?;
    s.set_read_timeout(Some(Duration::from_secs(60)))?;
    let mut req = format!("{method} {target} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n");
    if let Some(Who {
        header: Some(h), ..
    }) = w
    {
        req += &format!("Authorization: {h}\r\n");
    }
    if let Some((t, b)) = body {
        req += &format!("Content-Type: {t}\r\nContent-Length: {}\r\n", b.len());
    }
    req += "\r\n";
    s.write_all(req.as_bytes())?;
    if let Some((_, b)) = body {
        s.write_all(b)?;
    }
    let mut all = vec![];
    s.read_to_end(&mut all)?;
    let i = all
        .windows(4)
        .position(|x| x == b"\r\n\r\n")
        .ok_or("no HTTP response")?;
    let head = String::from_utf8_lossy(&all[..i]).to_string();
    let status = head
        .split(' ')
        .nth(1)
        .and_then(|x| x.parse().ok())
        .ok_or("no status")?;
    let mut b = all[i + 4..].to_vec();
    if head.to_lowercase().contains("transfer-encoding: chunked") {
        let mut res = vec![];
        loop {
            let e = b.windows(2).position(|x| x == b"\r\n").ok_or("bad chunk")?;
            let n = usize::from_str_radix(std::str::from_utf8(&b[..e])?.trim(), 16)?;
            if n == 0 {
                break;
            }
            res.extend(&b[e + 2..e + 2 + n]);
            b = b[e + 4 + n..].to_vec();
        }
        b = res;
    }
    Ok(Resp { status, body: b })
}

/// escape a path segment or query value
fn esc(s: &str) -> String {
    s.bytes()
        .map(|b| {
            if b.is_ascii_alphanumeric() || b == b'-' || b == b'_' {
                (b as char).to_string()
            } else {
                format!("%{b:02X}")
            }
        })
        .collect()
}

// ------------------------------------------------------------------ service

struct Service {
    dir: PathBuf,
    port: u16,
    child: Option<Child>,
}

impl Service {
    fn start(&mut self, r: &mut Rng, s: &Sign, open: bool) -> R<()> {
        let bin = std::env::var("VH_WEB")?;
        for _ in 0..20 {
            let port = 20_000 + (std::process::id() % 64) as u16 * 180 + r.n(180) as u16;
            let Ok(l) = TcpListener::bind(("127.0.0.1", port)) else {
                continue;
            };
            drop(l);
            let ver = match s {
                Sign::Hs(x) => format!("type = \"HS256\"\nsecret = \"{x}\""),
                Sign::Rs(_, p) => format!("type = \"RS256\"\npublic_key = \"\"\"\n{p}\"\"\""),
            };
            let cfg = self.dir.join("service.toml");
            std::fs::write(
                &cfg,
                format!(
                    "[bind]\nhost = \"127.0.0.1\"\nport = {port}\n[database]\ngraphannis = \"{d}/data\"\nsqlite = \"{d}/service.sqlite\"\ndisk_based = {disk}\n[auth]\nanonymous_access_all_corpora = {open}\n[auth.token_verification]\n{ver}\n[logging]\ndebug = false\n",
                    d = self.dir.display(),
                    disk = r.p(30)
                ),
            )?;
            let mut c = Command::new(&bin)
                .arg("--config")
                .arg(&cfg)
                .current_dir(&self.dir)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()?;
            let t = Instant::now();
            while t.elapsed() < Duration::from_secs(30) {
                if c.try_wait()?.is_some() {
                    break;
                }
                if http_once(port, "GET", "/v1/openapi.yml", None, None).is_ok() {
                    // is it this process that answers?
                    std::thread::sleep(Duration::from_millis(20));
                    if c.try_wait()?.is_some() {
                        break;
                    }
                    self.port = port;
                    self.child = Some(c);
                    return Ok(());
                }
                std::thread::sleep(Duration::from_millis(15));
            }
            let _ = c.kill();
            let _ = c.wait();
        }
        eprintln!("the service does not start");
        std::process::exit(3)
    }
    fn stop(&mut self) {
        if let Some(mut c) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

impl Drop for Service {
    fn drop(&mut self) {
        self.stop();
    }
}

// ------------------------------------------------------------------ corpora

const WORDS: [&str; 4] = ["a", "b", "ä", "the"];
const POS: [&str; 3] = ["N", "V", "X"];
const NAMES: [&str; 13] = [
    "a",
    "b b",
    "ä",
    "xx:y",
    "50%",
    "p|p",
    "s*",
    "q?",
    "c#d",
    "A",
    "anonymous",
    ".hidden",
    "files",
];
const SECRET: &str = "SECRET";

#[derive(Clone)]
struct Content {
    root: String,
    toks: Vec<(String, String)>,
    files: Vec<(String, String)>,
}

impl Content {
    fn random(r: &mut Rng, name: &str, id: usize) -> Content {
        let root = esc(name).replace("%3A", ":");
        let toks = (0..r.range(1, 6))
            .map(|_| (r.pick(&WORDS).to_string(), r.pick(&POS).to_string()))
            .collect();
        let mut files = vec![];
        for i in 0..r.n(3) {
            let n = *r.pick(&[
                "f.txt",
                "d/f.txt",
                "x y.txt",
                "50%.bin",
                "ä.dat",
                "a&b",
                "deep/er/f",
            ]);
            let n = format!(
                "{root}/{}",
                n.split('/').map(esc).collect::<Vec<_>>().join("/")
            );
            if !files.iter().any(|f: &(String, String)| f.0 == n) {
                files.push((n, format!("content {id} {i}")));
            }
        }
        Content { root, toks, files }
    }
    fn json(&self) -> Value {
        json!({"root": self.root, "toks": self.toks.iter().enumerate().map(|(i, t)| json!([format!("{}/doc#t{i}", self.root), t.0, t.1])).collect::<Vec<_>>(),
            "files": self.files.iter().map(|f| {
                let folders: Vec<&str> = f.0.match_indices('/').map(|(i, _)| &f.0[..i + 1]).collect();
                json!([f.0, f.1, folders])
            }).collect::<Vec<_>>()})
    }
    fn ops(&self) -> Vec<Op> {
        let d = format!("{}/doc", self.root);
        let mut l = vec![
            Op::AN(self.root.clone(), "corpus".into()),
            Op::AN(d.clone(), "corpus".into()),
            Op::AL(d.clone(), "annis".into(), "doc".into(), "doc".into()),
            Op::AE(d.clone(), self.root.clone(), comp("PartOf", "annis", "")),
        ];
        for (i, t) in self.toks.iter().enumerate() {
            let n = format!("{d}#t{i}");
            l.push(Op::AN(n.clone(), "node".into()));
            l.push(Op::AL(n.clone(), "annis".into(), "tok".into(), t.0.clone()));
            l.push(Op::AL(n.clone(), "ns".into(), "pos".into(), t.1.clone()));
            l.push(Op::AE(n.clone(), d.clone(), comp("PartOf", "annis", "")));
            if i > 0 {
                let p = format!("{d}#t{}", i - 1);
                l.push(Op::AE(p.clone(), n.clone(), comp("Ordering", "annis", "")));
                l.push(Op::AE(p.clone(), n.clone(), comp("Pointing", "x", "dep")));
                l.push(Op::AEL(
                    p,
                    n,
                    comp("Pointing", "x", "dep"),
                    "ns".into(),
                    "func".into(),
                    t.1.clone(),
                ));
            }
        }
        for (i, f) in self.files.iter().enumerate() {
            l.push(Op::AN(f.0.clone(), "file".into()));
            l.push(Op::AL(
                f.0.clone(),
                "annis".into(),
                "file".into(),
                format!("linked{i}"),
            ));
            l.push(Op::AE(
                f.0.clone(),
                self.root.clone(),
                comp("PartOf", "annis", ""),
            ));
        }
        l
    }
    /// import with the library
    fn import(&self, cs: &CorpusStorage, name: &str) -> R<()> {
        let tmp = tempfile::tempdir()?;
        let mut g = AnnotationGraph::with_default_graphstorages(false)?;
        g.apply_update(&mut to_update(&self.ops())?, |_| {})?;
        let p = tmp.path().join("c.graphml");
        graphannis_core::graph::serialization::graphml::export(
            &g,
            None,
            std::fs::File::create(&p)?,
            |_| {},
        )?;
        for (i, f) in self.files.iter().enumerate() {
            std::fs::write(tmp.path().join(format!("linked{i}")), &f.1)?;
        }
        cs.import_from_fs(
            &p,
            ImportFormat::GraphML,
            Some(name.into()),
            false,
            true,
            |_| {},
        )?;
        Ok(())
    }
}

fn open_storage(p: &Path) -> R<CorpusStorage> {
    Ok(CorpusStorage::with_cache_strategy(
        p,
        CacheStrategy::FixedMaxMemory(100),
        false,
    )?)
}

/// a ZIP file with these corpora
fn zip(list: &[(String, Content)]) -> R<Vec<u8>> {
    let tmp = tempfile::tempdir()?;
    let cs = open_storage(&tmp.path().join("db"))?;
    for (n, c) in list {
        c.import(&cs, n)?;
    }
    let names: Vec<&str> = list.iter().map(|x| x.0.as_str()).collect();
    let f = tmp.path().join("x.zip");
    cs.export_to_fs(&names, &f, ExportFormat::GraphMLZip)?;
    Ok(std::fs::read(f)?)
}

// ------------------------------------------------------------------ requests

struct World {
    sign: Sign,
    names: Vec<String>,
    /// ZIP files by number
    blobs: Vec<Vec<u8>>,
    /// every content any corpus ever had
    contents: Vec<Content>,
}

fn subset<T: Clone>(r: &mut Rng, v: &[T], p: usize) -> Vec<T> {
    let mut x: Vec<T> = v.iter().filter(|_| r.p(p)).cloned().collect();
    r.shuffle(&mut x);
    x
}

fn corpora(r: &mut Rng, w: &World) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..r.pick(&[1, 1, 1, 2, 2, 3, 0]).to_owned() {
        let n = r.pick(&w.names).clone();
        if !v.contains(&n) {
            v.push(n);
        }
    }
    v
}

fn query(r: &mut Rng) -> (String, Value) {
    match r.n(4) {
        0 => ("tok".into(), json!(["tok", ""])),
        1 => {
            let x = r.pick(&WORDS);
            (format!("tok=\"{x}\""), json!(["word", x]))
        }
        2 => {
            let x = r.pick(&POS);
            (format!("pos=\"{x}\""), json!(["pos", x]))
        }
        _ => ("tok . tok".into(), json!(["next", ""])),
    }
}

/// a request: method, target, body
struct Req {
    m: &'static str,
    t: String,
    b: Option<(&'static str, Vec<u8>)>,
    j: Value,
}

fn put_group(r: &mut Rng, w: &World, name: &str) -> Req {
    let mut cs: Vec<String> = subset(r, &w.names, 35);
    if r.p(8) && !cs.is_empty() {
        cs.push(cs[0].clone());
    }
    let n = if r.p(8) { "other" } else { name };
    Req {
        m: "PUT",
        t: format!("/v1/groups/{}", esc(name)),
        b: Some((
            "application/json",
            json!({"name": n, "corpora": cs}).to_string().into_bytes(),
        )),
        j: json!({"k":"put","g":name,"n":n,"cs":cs}),
    }
}

fn read(r: &mut Rng, w: &World, kind: usize) -> Req {
    let js = "application/json";
    let (q, qj) = query(r);
    let get = |t: String, j: Value| Req {
        m: "GET",
        t,
        b: None,
        j,
    };
    let c = r.pick(&w.names).clone();
    let e = esc(&c);
    match kind {
        0 => get("/v1/corpora".into(), json!({"k":"list"})),
        1 => {
            let cs = corpora(r, w);
            Req {
                m: "POST",
                t: "/v1/search/count".into(),
                b: Some((
                    js,
                    json!({"query":q,"query_language":"AQL","corpora":cs})
                        .to_string()
                        .into_bytes(),
                )),
                j: json!({"k":"count","cs":cs,"q":qj}),
            }
        }
        2 => {
            let cs = corpora(r, w);
            let limit = if r.p(50) { None } else { Some(r.n(6)) };
            let offset = if r.p(50) { 0 } else { r.n(5) };
            let order = *r.pick(&["Normal", "Inverted", "NotSorted", "Randomized"]);
            let mut b = json!({"query":q,"query_language":"AQL","corpora":cs,"order":order});
            if let Some(l) = limit {
                b["limit"] = json!(l);
            }
            if offset > 0 {
                b["offset"] = json!(offset);
            }
            Req {
                m: "POST",
                t: "/v1/search/find".into(),
                b: Some((js, b.to_string().into_bytes())),
                j: json!({"k":"find","cs":cs,"q":qj,"o":offset,"n":limit.map(|l| l as i64).unwrap_or(-1),"order":order}),
            }
        }
        3 => {
            let cs = corpora(r, w);
            Req { m: "POST", t: "/v1/search/frequency".into(),
                b: Some((js, json!({"query":q,"query_language":"AQL","corpora":cs,"definition":[{"ns":"ns","name":"pos","node_ref":"1"}]}).to_string().into_bytes())),
                j: json!({"k":"freq","cs":cs,"q":qj}) }
        }
        4 => get(
            format!("/v1/corpora/{e}/configuration"),
            json!({"k":"conf","cs":[c]}),
        ),
        5 => {
            let v = r.p(60);
            get(
                format!("/v1/corpora/{e}/node-annotations?list_values={v}"),
                json!({"k":"nodeannos","cs":[c],"v":v}),
            )
        }
        6 => get(
            format!("/v1/corpora/{e}/components?type=Pointing"),
            json!({"k":"comps","cs":[c]}),
        ),
        7 => get(
            format!("/v1/corpora/{e}/edge-annotations/Pointing/x/dep/?list_values=true"),
            json!({"k":"edgeannos","cs":[c]}),
        ),
        8 => {
            let t = r.pick(&w.contents).clone();
            let i = r.n(t.toks.len() + 1);
            let (l, rt) = (r.n(3), r.n(3));
            Req {
                m: "POST",
                t: format!("/v1/corpora/{e}/subgraph"),
                b: Some((
                    js,
                    json!({"node_ids":[format!("{}/doc#t{i}", t.root)],"left":l,"right":rt})
                        .to_string()
                        .into_bytes(),
                )),
                j: json!({"k":"subgraph","cs":[c],"n":format!("{}/doc#t{i}", t.root),"l":l,"r":rt}),
            }
        }
        9 => get(
            format!(
                "/v1/corpora/{e}/subgraph-for-query?query={}&query_language=AQL",
                esc(&q)
            ),
            json!({"k":"subq","cs":[c],"q":qj}),
        ),
        10 => get(
            format!("/v1/corpora/{e}/files"),
            json!({"k":"files","cs":[c]}),
        ),
        11 => {
            let t = r.pick(&w.contents).clone();
            let n = if t.files.is_empty() || r.p(20) {
                "none.txt".to_string()
            } else {
                r.pick(&t.files).0.clone()
            };
            // the name is decoded by the server and by the service
            get(
                format!("/v1/corpora/{e}/files/{}", esc(&esc(&n))),
                json!({"k":"file","cs":[c],"n":n}),
            )
        }
        12 => {
            // names that try to leave the folder of the corpus
            let c = r
                .pick(&[c, "..".into(), ".".into(), "../data".into(), "".into()])
                .clone();
            let o = r.pick(&w.contents).clone();
            let f = o
                .files
                .first()
                .map(|f| f.0.clone())
                .unwrap_or("secret.txt".into());
            let up = "../".repeat(r.n(4));
            // via a folder that exists
            let inner = f.split('/').next().unwrap_or("f").to_string();
            let up = match r.n(3) {
                0 => format!("{inner}/../{up}"),
                _ => up,
            };
            let n = match r.n(5) {
                0 => format!("{up}secret.txt"),
                1 => format!("{up}data/secret.txt"),
                2 => format!("{up}{}/files/{f}", esc(r.pick(&w.names))),
                3 => "/etc/hostname".into(),
                _ => format!("{up}service.sqlite"),
            };
            let once = |s: &str| {
                s.replace('/', "%2F")
                    .replace("..", r_pick(&["..", "%2E%2E", ".%2e"], n.len()))
            };
            let t = match r.n(3) {
                0 if c.contains("..") => {
                    format!("/v1/corpora/{}/files/{}", once(&c), once(&n))
                }
                1 => format!("/v1/corpora/{}/files/{}", esc(&c), esc(&n)),
                _ => format!("/v1/corpora/{}/files/{}", esc(&c), esc(&esc(&n))),
            };
            get(t, json!({"k":"escape","cs":[c],"n":n}))
        }
        13 => {
            // the same for listing files
            let c = r
                .pick(&[c, "..".into(), ".".into(), "../data".into()])
                .clone();
            let up = "../".repeat(r.n(3));
            let up = match w.contents.iter().flat_map(|c| &c.files).next() {
                Some(f) if r.p(40) => {
                    format!("{}/../{up}", f.0.split('/').next().unwrap_or("f"))
                }
                _ => up,
            };
            let n = format!("{up}{}", r.pick(&["", "/", "data", "/etc", ".", "a"]));
            get(
                format!("/v1/corpora/{}/files?node={}", esc(&c), esc(&n)),
                json!({"k":"esclist","cs":[c],"n":n}),
            )
        }
        14 => get(
            format!(
                "/v1/search/node-descriptions?query={}",
                esc("tok . pos=\"N\"")
            ),
            json!({"k":"desc"}),
        ),
        15 => {
            let t = r.pick(&w.contents).clone();
            let d = *r.pick(&["", "/d", "/doc", "/deep", "/deep/er"]);
            get(
                format!(
                    "/v1/corpora/{e}/files?node={}",
                    esc(&format!("{}{d}", t.root))
                ),
                json!({"k":"files","cs":[c],"d":format!("{}{d}/", t.root)}),
            )
        }
        _ => get("/v1/groups".into(), json!({"k":"groups"})),
    }
}

fn r_pick<'a>(v: &[&'a str], i: usize) -> &'a str {
    v[i % v.len()]
}

/// answer in the form the specification expects
fn answer(k: &str, p: &Resp) -> Value {
    let mut a = json!({"st": p.status});
    let text = String::from_utf8_lossy(&p.body).to_string();
    if p.status != 200 {
        // errors must not contain content
        a["leak"] = json!(text.contains(SECRET) || text.contains("content "));
        return a;
    }
    let bad = |what: &str| json!({"st": p.status, "odd": format!("{what}: {}", text.chars().take(200).collect::<String>())});
    let v: Value = serde_json::from_slice(&p.body).unwrap_or(Value::Null);
    match k {
        "list" | "files" | "esclist" => {
            if !v.is_array() {
                return bad("no list");
            }
            a["r"] = v;
        }
        "count" => {
            if !v["match_count"].is_u64() {
                return bad("no count");
            }
            a["r"] = json!([v["match_count"], v["document_count"]]);
        }
        "find" => a["r"] = json!(text.lines().collect::<Vec<_>>()),
        "freq" => match v.as_array() {
            Some(x) => {
                a["r"] = json!(
                    x.iter()
                        .map(|e| json!([e["values"], e["count"]]))
                        .collect::<Vec<_>>()
                )
            }
            None => return bad("no table"),
        },
        "nodeannos" | "edgeannos" => match v.as_array() {
            Some(x) => {
                a["r"] = json!(
                    x.iter()
                        .map(|e| json!([e["key"]["ns"], e["key"]["name"], e["val"]]))
                        .collect::<Vec<_>>()
                )
            }
            None => return bad("no list"),
        },
        "comps" => match v.as_array() {
            Some(x) => {
                a["r"] = json!(
                    x.iter()
                        .map(|e| json!([e["type"], e["layer"], e["name"]]))
                        .collect::<Vec<_>>()
                )
            }
            None => return bad("no list"),
        },
        "subgraph" | "subq" => {
            let mut n: Vec<String> = vec![];
            for (i, _) in text.match_indices("<node id=\"") {
                let s = &text[i + 10..];
                n.push(
                    s[..s.find('"').unwrap_or(0)]
                        .replace("&amp;", "&")
                        .to_string(),
                );
            }
            a["r"] = json!(n);
        }
        "file" | "escape" => a["r"] = json!(text.chars().take(300).collect::<String>()),
        "groups" => match v.as_array() {
            Some(x) => {
                a["r"] = json!(
                    x.iter()
                        .map(|e| json!([e["name"], e["corpora"]]))
                        .collect::<Vec<_>>()
                )
            }
            None => return bad("no list"),
        },
        _ => {}
    }
    a
}

fn send(port: u16, q: &Req, w: &Who) -> R<Resp> {
    http(
        port,
        q.m,
        &q.t,
        Some(w),
        q.b.as_ref().map(|b| (b.0, b.1.as_slice())),
    )
}

/// wait for a background job
fn job(port: u16, uuid: &str, w: &Who) -> R<Resp> {
    let t = Instant::now();
    loop {
        let p = http(port, "GET", &format!("/v1/jobs/{uuid}"), Some(w), None)?;
        if p.status != 202 {
            return Ok(p);
        }
        if t.elapsed() > Duration::from_secs(60) {
            return Ok(Resp {
                status: 598,
                body: vec![],
            });
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn event(q: &Req, w: &Who, a: Value) -> Value {
    let mut j = q.j.clone();
    j["who"] = w.j.clone();
    json!({"e":"Req","r":j,"a":a})
}

fn trace(seed: u64, profile: &str, keys: &Path) -> R<Value> {
    let mut r = Rng::new(seed);
    let tmp = tempfile::tempdir()?;
    let dir = tmp.path().join("base");
    std::fs::create_dir_all(dir.join("data"))?;
    std::fs::create_dir_all(dir.join("files"))?;
    for f in ["secret.txt", "data/secret.txt", "files/secret.txt"] {
        std::fs::write(dir.join(f), SECRET)?;
    }
    let rsa = profile == "rsa";
    let sign = if rsa {
        Sign::Rs(
            keys.join("private.pem"),
            std::fs::read_to_string(keys.join("public.pem"))?,
        )
    } else {
        Sign::Hs(format!("secret{seed}-{}", std::process::id()))
    };
    let mut names: Vec<String> = vec![];
    for _ in 0..r.range(3, 5) {
        let n = r.pick(&NAMES).to_string();
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let mut sorted = names.clone();
    sorted.sort();
    let mut w = World {
        sign,
        names,
        blobs: vec![],
        contents: vec![],
    };
    let mut ev = vec![];
    let mut init = serde_json::Map::new();
    // corpora that exist before the service is started
    {
        let cs = open_storage(&dir.join("data"))?;
        for n in w.names.clone() {
            if r.p(85) {
                let c = Content::random(&mut r, &n, w.contents.len());
                c.import(&cs, &n)?;
                init.insert(n.clone(), c.json());
                w.contents.push(c);
            }
        }
    }
    if w.contents.is_empty() {
        let n = w.names[0].clone();
        let c = Content::random(&mut r, &n, 0);
        let cs = open_storage(&dir.join("data"))?;
        c.import(&cs, &n)?;
        init.insert(n, c.json());
        w.contents.push(c);
    }
    // data of the corpora in the form of pairs (names are not always identifiers)
    let init: Vec<Value> = init.into_iter().map(|(k, v)| json!([k, v])).collect();
    let mut open = r.p(20);
    let mut s = Service {
        dir: dir.clone(),
        port: 0,
        child: None,
    };
    s.start(&mut r, &w.sign.clone(), open)?;
    ev.push(json!({"e":"Start","cs":init,"open":open}));
    let steps = if rsa {
        r.range(10, 20)
    } else {
        r.range(35, 60)
    };
    for _ in 0..steps {
        let sg = w.sign.clone();
        match r.n(100) {
            0..=17 => {
                let g = *r.pick(&GROUPS);
                let u = who(&mut r, &sg, Some(true).filter(|_| ev.len() % 5 != 0))?;
                let q = put_group(&mut r, &w, g);
                let p = send(s.port, &q, &u)?;
                ev.push(event(&q, &u, answer("put", &p)));
            }
            18..=21 => {
                let g = *r.pick(&GROUPS);
                let adm = r.p(70);
                let u = who(&mut r, &sg, if adm { Some(true) } else { None })?;
                let q = Req {
                    m: "DELETE",
                    t: format!("/v1/groups/{}", esc(g)),
                    b: None,
                    j: json!({"k":"ungroup","g":g}),
                };
                let p = send(s.port, &q, &u)?;
                ev.push(event(&q, &u, answer("ungroup", &p)));
            }
            22..=24 => {
                let c = if r.p(15) {
                    r.pick(&["..", ".", "../data", "../files"]).to_string()
                } else {
                    r.pick(&w.names).clone()
                };
                let adm = r.p(55);
                let u = who(&mut r, &sg, if adm { Some(true) } else { None })?;
                let q = Req {
                    m: "DELETE",
                    t: format!("/v1/corpora/{}", esc(&c)),
                    b: None,
                    j: json!({"k":"del","cs":[c]}),
                };
                let p = send(s.port, &q, &u)?;
                ev.push(event(&q, &u, answer("del", &p)));
            }
            25..=31 => {
                // import of a new or an exported ZIP file
                if w.blobs.is_empty() || r.p(60) {
                    let mut list: Vec<(String, Content)> = vec![];
                    for n in subset(&mut r, &w.names.clone(), 40) {
                        let c = Content::random(&mut r, &n, w.contents.len());
                        w.contents.push(c.clone());
                        list.push((n, c));
                    }
                    if list.is_empty() {
                        continue;
                    }
                    ev.push(json!({"e":"Zip","b":w.blobs.len(),"cs":list.iter().map(|(n, c)| json!([n, c.json()])).collect::<Vec<_>>()}));
                    w.blobs.push(zip(&list)?);
                }
                let b = r.n(w.blobs.len());
                let over = r.p(60);
                let adm = r.p(80);
                let u = who(&mut r, &sg, if adm { Some(true) } else { None })?;
                let q = Req {
                    m: "POST",
                    t: format!("/v1/import?override_existing={over}"),
                    b: Some(("application/octet-stream", w.blobs[b].clone())),
                    j: json!({"k":"import","b":b,"over":over}),
                };
                let p = send(s.port, &q, &u)?;
                let mut a = json!({"st":p.status,"job":0});
                if p.status == 202 {
                    let v: Value = serde_json::from_slice(&p.body)?;
                    let uuid = v["uuid"].as_str().ok_or("no uuid")?.to_string();
                    if r.p(40) {
                        // others must not see the job
                        let u2 = who(&mut r, &sg, Some(false))?;
                        let p2 = http(s.port, "GET", &format!("/v1/jobs/{uuid}"), Some(&u2), None)?;
                        a["other"] = json!(p2.status);
                    }
                    a["job"] = json!(job(s.port, &uuid, &u)?.status);
                    a["again"] = json!(
                        http(s.port, "GET", &format!("/v1/jobs/{uuid}"), Some(&u), None)?.status
                    );
                    let p = http(s.port, "GET", "/v1/corpora", Some(&u), None)?;
                    a["list"] = serde_json::from_slice(&p.body)?;
                }
                ev.push(event(&q, &u, a));
            }
            32..=35 => {
                let cs: Vec<String> = subset(&mut r, &w.names.clone(), 50);
                let adm = r.p(70);
                let u = who(&mut r, &sg, if adm { Some(true) } else { None })?;
                let b = w.blobs.len();
                let q = Req {
                    m: "POST",
                    t: "/v1/export".into(),
                    b: Some((
                        "application/json",
                        json!({"corpora":cs}).to_string().into_bytes(),
                    )),
                    j: json!({"k":"export","cs":cs,"b":b}),
                };
                let p = send(s.port, &q, &u)?;
                let mut a = json!({"st":p.status,"job":0});
                if p.status == 202 {
                    let v: Value = serde_json::from_slice(&p.body)?;
                    let uuid = v["uuid"].as_str().ok_or("no uuid")?.to_string();
                    if r.p(60) {
                        let u2 = who(&mut r, &sg, Some(false))?;
                        let p2 = http(s.port, "GET", &format!("/v1/jobs/{uuid}"), Some(&u2), None)?;
                        a["other"] = json!(p2.status);
                    }
                    let p = job(s.port, &uuid, &u)?;
                    a["job"] = json!(p.status);
                    if p.status == 200 {
                        w.blobs.push(p.body);
                    }
                    a["again"] = json!(
                        http(s.port, "GET", &format!("/v1/jobs/{uuid}"), Some(&u), None)?.status
                    );
                }
                ev.push(event(&q, &u, a));
            }
            36..=39 => {
                s.stop();
                if r.p(40) {
                    open = !open;
                }
                s.start(&mut r, &sg, open)?;
                ev.push(json!({"e":"Restart","open":open}));
            }
            40..=45 if !rsa => {
                // several requests at the same time, some of them change groups
                let mut list = vec![];
                let g = *r.pick(&GROUPS);
                for i in 0..r.range(2, 4) {
                    let change = i == 0 || r.p(30);
                    let adm = change || r.p(40);
                    let u = who(&mut r, &sg, Some(adm))?;
                    let q = if change {
                        let g = if r.p(60) { g } else { *r.pick(&GROUPS) };
                        put_group(&mut r, &w, g)
                    } else {
                        let k = *r.pick(&[0, 1, 2, 5, 16]);
                        read(&mut r, &w, k)
                    };
                    list.push((q, u));
                }
                let port = s.port;
                let res: Vec<Result<Value, String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = list
                        .iter()
                        .map(|(q, u)| {
                            sc.spawn(move || {
                                send(port, q, u)
                                    .map(|p| answer(q.j["k"].as_str().unwrap(), &p))
                                    .map_err(|e| e.to_string())
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                let mut es = vec![];
                for ((q, u), a) in list.iter().zip(res) {
                    es.push(event(q, u, a?));
                }
                let u = who(&mut r, &sg, Some(true))?;
                let q = read(&mut r, &w, 16);
                let p = send(s.port, &q, &u)?;
                ev.push(json!({"e":"Par","rs":es,"fin":answer("groups", &p)}));
            }
            _ => {
                let k = *r.pick(&[
                    0, 0, 1, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 11, 11, 12, 12, 13, 14,
                    15, 16,
                ]);
                let u = who(
                    &mut r,
                    &sg,
                    *[None, None, Some(false), Some(true)]
                        .get(ev.len() % 4)
                        .unwrap(),
                )?;
                let q = read(&mut r, &w, k);
                let p = send(s.port, &q, &u)?;
                ev.push(event(&q, &u, answer(q.j["k"].as_str().unwrap(), &p)));
            }
        }
    }
    s.stop();
    Ok(json!({"id": seed, "names": sorted, "ev": ev}))
}

pub fn run(a: &Args) -> R<()> {
    let mut out = Out::create(&a.s("out", "/dev/stdout"))?;
    let n = a.u("n", 10);
    let seed = a.u("seed", 1);
    let shards = a.u("shards", 1);
    let profile = a.s("profile", "all");
    let keys = PathBuf::from(a.s("keys", "keys"));
    let only = a.u("only", 0);
    if only > 0 {
        return out.line(&trace(only, &profile, &keys)?);
    }
    for i in 0..n.div_ceil(shards) {
        let s = seed * 1_000_003 + i;
        match guarded(|| trace(s, &profile, &keys)) {
            Ok(v) => out.line(&v)?,
            Err(e) => return Err(e.into()),
        }
    }
    Ok(())
}
