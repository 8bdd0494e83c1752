//! Driver for the corpus storage: sequences of calls executed by worker processes that can be
//! killed at (or refused) each single change of the file system, concurrent calls, several
//! processes on one directory.
use crate::common::*;
use crate::graphdrv::{Mirror, Names, gen_op, names};
use crate::shim;
use graphannis::AnnotationGraph;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{CacheStrategy, ExportFormat, ImportFormat, QueryLanguage, SearchQuery};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// where exported files are put
static FILES: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();

// ------------------------------------------------------------------ executing calls (worker side)
pub struct Worker {
    dir: PathBuf,
    cs: Option<Arc<CorpusStorage>>,
    gate: bool,
}

fn err(e: impl std::fmt::Display) -> Value {
    json!({"k": "err", "what": e.to_string()})
}
fn ok() -> Value {
    json!({"k": "ok"})
}
fn s(o: &Value, k: &str) -> String {
    o[k].as_str().unwrap_or("").to_string()
}
pub fn op_from_json(v: &Value) -> Op {
    let t = |i: usize| v[i].as_str().unwrap_or("").to_string();
    let c = |i: usize| -> Comp {
        let x = &v[i];
        comp(x[0].as_str().unwrap(), x[1].as_str().unwrap(), x[2].as_str().unwrap())
    };
    match v[0].as_str().unwrap() {
        "AN" => Op::AN(t(1), t(2)),
        "DN" => Op::DN(t(1)),
        "AL" => Op::AL(t(1), t(2), t(3), t(4)),
        "DL" => Op::DL(t(1), t(2), t(3)),
        "AE" => Op::AE(t(1), t(2), c(3)),
        "DE" => Op::DE(t(1), t(2), c(3)),
        "AEL" => Op::AEL(t(1), t(2), c(3), t(4), t(5), t(6)),
        _ => Op::DEL(t(1), t(2), c(3), t(4), t(5)),
    }
}

/// One call on an open storage.  Everything it returns is part of the trace.
fn call(cs: &CorpusStorage, o: &Value) -> Value {
    let c = s(o, "c");
    let r: Result<Value, graphannis::errors::GraphAnnisError> = (|| {
        Ok(match o["op"].as_str().unwrap() {
            "create" => json!({"k":"bool","v": cs.create_empty_corpus(&c, o["disk"].as_bool().unwrap_or(false))?}),
            "delete" => json!({"k":"bool","v": cs.delete(&c)?}),
            "unload" => {
                cs.unload(&c)?;
                ok()
            }
            "preload" => {
                cs.preload(&c)?;
                ok()
            }
            "reopt" => {
                cs.reoptimize_implementation(&c, o["disk"].as_bool().unwrap_or(false))?;
                ok()
            }
            "list" => {
                let mut l: Vec<String> = cs.list()?.into_iter().map(|i| i.name).collect();
                l.sort();
                json!({"k":"names","v":l})
            }
            "info" => {
                cs.info(&c)?;
                ok()
            }
            "apply" => {
                let ops: Vec<Op> = o["us"].as_array().unwrap().iter().map(op_from_json).collect();
                let mut u = to_update(&ops).expect("update list");
                cs.apply_update(&c, &mut u)?;
                ok()
            }
            "count" => json!({"k":"num","v": cs.count(SearchQuery {
                corpus_names: &[&c], query: "annis:node_name", query_language: QueryLanguage::AQL, timeout: None })?}),
            "content" => {
                let g = cs.subgraph_for_query(&c, "annis:node_name", QueryLanguage::AQL, None)?;
                let p = project(&g).map_err(|e| graphannis::errors::GraphAnnisError::from(std::io::Error::other(e.to_string())))?;
                json!({"k":"content","st":p.json()})
            }
            "export" => {
                cs.export_to_fs(&[&c], &FILES.get().unwrap().join(s(o, "path")), ExportFormat::GraphML)?;
                ok()
            }
            "import" => {
                let n = cs.import_from_fs(
                    &FILES.get().unwrap().join(s(o, "path")), ImportFormat::GraphML, Some(c.clone()),
                    o["disk"].as_bool().unwrap_or(false), o["over"].as_bool().unwrap_or(false), |_| {})?;
                if n == c { ok() } else { json!({"k":"wrong name"}) }
            }
            x => json!({"k":"?", "what": x}),
        })
    })();
    match r {
        Ok(v) => v,
        Err(e) => err(e),
    }
}

fn call_guarded(cs: &CorpusStorage, o: &Value) -> Value {
    match guarded(|| Ok(call(cs, o))) {
        Ok(v) => v,
        Err(p) => json!({"k":"panic","what":p}),
    }
}

impl Worker {
    fn open(&self, o: &Value) -> Result<CorpusStorage, graphannis::errors::GraphAnnisError> {
        match o["cache"].as_u64() {
            Some(mb) => CorpusStorage::with_cache_strategy(
                &self.dir, CacheStrategy::FixedMaxMemory(mb as usize), o["par"].as_bool().unwrap_or(false)),
            None => CorpusStorage::with_auto_cache_size(&self.dir, o["par"].as_bool().unwrap_or(false)),
        }
    }
    fn exec(&mut self, o: &Value) -> Value {
        match o["op"].as_str().unwrap() {
            "arm" => {
                let k = o["k"].as_u64().unwrap_or(0);
                let f = match s(o, "kind").as_str() {
                    "before" => shim::Fault::KillBefore(k),
                    "after" => shim::Fault::KillAfter(k),
                    "torn" => shim::Fault::KillTorn(k),
                    "error" => shim::Fault::Error(k, o["n"].as_u64().unwrap_or(1), libc::ENOSPC),
                    _ => shim::Fault::None,
                };
                shim::arm(&s(o, "dir"), f);
                ok()
            }
            "disarm" => json!({"k":"num","v":shim::disarm()}),
            "changes" => json!({"k":"num","v":shim::count()}),
            "gate" => {
                shim::GATING.store(false, SeqCst);
                self.gate = o["v"].as_bool().unwrap();
                ok()
            }
            "sync" => {
                let n = o["n"].as_u64().unwrap_or(1000);
                shim::gate_release(n);
                shim::gate_settle();
                ok()
            }
            "hold" => {
                *shim::HOLD.lock().unwrap() = Some((s(o, "where"), s(o, "mark"), s(o, "wait")));
                ok()
            }
            "open" => match guarded(|| Ok(self.open(o))) {
                Ok(Ok(cs)) => {
                    self.cs = Some(Arc::new(cs));
                    ok()
                }
                Ok(Err(e)) => err(e),
                Err(p) => json!({"k":"panic","what":p}),
            },
            // a second instance in the same process
            "open2" => match guarded(|| Ok(self.open(o))) {
                Ok(Ok(_)) => ok(),
                Ok(Err(e)) => err(e),
                Err(p) => json!({"k":"panic","what":p}),
            },
            "close" => {
                // the delayed threads go on a little later: closing has to wait for them
                let delay = o["delay"].as_u64().unwrap_or(0);
                let t = std::thread::spawn(move || {
                    std::thread::sleep(Duration::from_millis(delay));
                    shim::gate_release(1000);
                });
                let r = guarded(|| {
                    self.cs = None;
                    Ok(())
                });
                if delay == 0 {
                    let _ = t.join();
                }
                match r {
                    Ok(_) => ok(),
                    Err(p) => json!({"k":"panic","what":p}),
                }
            }
            "direct" => {
                // the corpus directory opened as a graph without the storage
                let r = guarded(|| {
                    let mut g = AnnotationGraph::new(false)?;
                    g.open(&self.dir.join(s(o, "c")))?;
                    g.ensure_loaded_all()?;
                    Ok(project(&g)?.json())
                });
                match r {
                    Ok(st) => json!({"k":"content","st":st}),
                    Err(e) => err(e),
                }
            }
            "conc" => self.concurrent(o),
            _ => {
                let Some(cs) = self.cs.clone() else { return json!({"k":"closed"}) };
                if o["op"] == "apply" && self.gate {
                    shim::GATING.store(true, SeqCst);
                }
                let r = call_guarded(&cs, o);
                shim::GATING.store(false, SeqCst);
                drop(cs);
                r
            }
        }
    }
    /// each thread executes its calls; the order of beginnings and ends is recorded
    fn concurrent(&mut self, o: &Value) -> Value {
        let Some(cs) = self.cs.clone() else { return json!({"k":"closed"}) };
        let log: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![]));
        let mut hs = vec![];
        let start = Arc::new(std::sync::Barrier::new(o["threads"].as_array().unwrap().len()));
        for (t, ops) in o["threads"].as_array().unwrap().iter().enumerate() {
            let (cs, log, ops, start) = (cs.clone(), log.clone(), ops.as_array().unwrap().clone(), start.clone());
            hs.push(std::thread::spawn(move || {
                start.wait();
                for (i, o) in ops.iter().enumerate() {
                    let pause = o["pause"].as_u64().unwrap_or(0);
                    if pause > 0 {
                        std::thread::sleep(Duration::from_micros(pause));
                    }
                    let id = (t + 1) * 1000 + i;
                    log.lock().unwrap().push(json!({"e":"Call","i":id,"o":o}));
                    let r = call_guarded(&cs, o);
                    log.lock().unwrap().push(json!({"e":"Ret","i":id,"r":r}));
                }
            }));
        }
        for h in hs {
            let _ = h.join();
        }
        let v = log.lock().unwrap().clone();
        json!({"k":"log","v":v})
    }
}

fn serve(dir: PathBuf, rd: i32, wr: i32) -> ! {
    let _ = rayon::current_num_threads(); // the pool must exist before threads are delayed
    let _ = FILES.set(dir.ancestors().nth(4).unwrap().join("files"));
    let mut w = Worker { dir, cs: None, gate: false };
    let mut inp = BufReader::new(unsafe { std::fs::File::from_raw_fd(rd) });
    let mut out = unsafe { std::fs::File::from_raw_fd(wr) };
    let mut line = String::new();
    loop {
        line.clear();
        if inp.read_line(&mut line).unwrap_or(0) == 0 {
            unsafe { libc::_exit(0) }
        }
        let o: Value = serde_json::from_str(&line).unwrap();
        if o["op"] == "exit" {
            unsafe { libc::_exit(0) }
        }
        let r = w.exec(&o);
        let mut t = serde_json::to_vec(&r).unwrap();
        t.push(b'\n');
        if out.write_all(&t).is_err() {
            unsafe { libc::_exit(0) }
        }
    }
}

// ------------------------------------------------------------------ conductor side
pub struct Proc {
    pid: i32,
    to: Option<std::fs::File>,
    from: std::fs::File,
    buf: Vec<u8>,
    pub alive: bool,
    /// the signal which ended the process, if it was not killed on purpose
    pub fatal: i32,
}
pub enum Outcome {
    Res(Value),
    Died,
    Hang,
}

impl Proc {
    pub fn start(dir: &Path) -> Proc {
        unsafe {
            let mut a = [0i32; 2];
            let mut b = [0i32; 2];
            assert_eq!(libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC), 0);
            assert_eq!(libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(a[1]);
                libc::close(b[0]);
                serve(dir.to_path_buf(), a[0], b[1]);
            }
            libc::close(a[0]);
            libc::close(b[1]);
            Proc {
                pid,
                to: Some(std::fs::File::from_raw_fd(a[1])),
                from: std::fs::File::from_raw_fd(b[0]),
                buf: vec![],
                alive: true,
                fatal: 0,
            }
        }
    }
    pub fn send(&mut self, o: &Value) -> bool {
        let mut t = serde_json::to_vec(o).unwrap();
        t.push(b'\n');
        self.to.as_mut().map(|f| f.write_all(&t).is_ok()).unwrap_or(false)
    }
    pub fn recv(&mut self, secs: u64) -> Outcome {
        use std::io::Read;
        use std::os::fd::AsRawFd;
        let t0 = Instant::now();
        loop {
            if let Some(i) = self.buf.iter().position(|b| *b == b'\n') {
                let rest = self.buf.split_off(i + 1);
                let line = std::mem::replace(&mut self.buf, rest);
                return Outcome::Res(serde_json::from_slice(&line[..i]).unwrap());
            }
            let mut p = libc::pollfd { fd: self.from.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let n = unsafe { libc::poll(&mut p, 1, 500) };
            if n > 0 {
                let mut b = [0u8; 65536];
                match self.from.read(&mut b) {
                    Ok(0) | Err(_) => {
                        self.reap();
                        return Outcome::Died;
                    }
                    Ok(n) => self.buf.extend_from_slice(&b[..n]),
                }
            }
            if t0.elapsed().as_secs() > secs {
                return Outcome::Hang;
            }
        }
    }
    pub fn call(&mut self, o: &Value) -> Outcome {
        if !self.send(o) {
            self.reap();
            return Outcome::Died;
        }
        self.recv(60)
    }
    fn reap(&mut self) {
        if self.alive {
            self.alive = false;
            unsafe {
                let mut st = 0;
                let mut left = 3000;
                // the process is about to end by itself or was killed by a fault
                while libc::waitpid(self.pid, &mut st, libc::WNOHANG) == 0 && left > 0 {
                    left -= 1;
                    std::thread::sleep(Duration::from_millis(1));
                }
                if left == 0 {
                    libc::kill(self.pid, libc::SIGKILL);
                    libc::waitpid(self.pid, &mut st, 0);
                }
                if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) != libc::SIGKILL {
                    self.fatal = libc::WTERMSIG(st);
                }
            }
        }
    }
    pub fn kill(&mut self) {
        if self.alive {
            unsafe { libc::kill(self.pid, libc::SIGKILL) };
        }
        self.reap();
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        self.to = None;
        self.kill();
    }
}

/// A trace under construction: one directory, its processes.
pub struct Session {
    pub top: tempfile::TempDir,
    pub dir: PathBuf,
    pub files: PathBuf,
    pub evs: Vec<Value>,
    pub dead: bool,
}
impl Session {
    pub fn new() -> R<Session> {
        // nested, so that a wrong path cannot leave the scratch directory
        let top = tempfile::Builder::new().prefix("vh-store-").tempdir()?;
        let dir = top.path().join("a/b/c/db");
        let files = top.path().join("files");
        std::fs::create_dir_all(&dir)?;
        std::fs::create_dir_all(&files)?;
        Ok(Session { dir: dir.canonicalize()?, files: files.canonicalize()?, top, evs: vec![], dead: false })
    }
    pub fn start(&self) -> Proc {
        Proc::start(&self.dir)
    }
    /// a call whose result is part of the trace; false if the process is gone
    pub fn act(&mut self, p: &mut Proc, n: usize, o: Value) -> bool {
        self.act_io(p, n, o, false)
    }
    pub fn act_io(&mut self, p: &mut Proc, n: usize, o: Value, io: bool) -> bool {
        match p.call(&o) {
            Outcome::Res(r) => {
                self.record(n, o, r, io);
                true
            }
            Outcome::Died => {
                if p.fatal != 0 {
                    self.evs.push(json!({"e":"Fail","what":format!("the process was aborted with signal {}: {o}", p.fatal)}));
                    self.dead = true;
                    return false;
                }
                self.evs.push(json!({"e":"Crash","p":n,"o":[o]}));
                false
            }
            Outcome::Hang => {
                self.evs.push(json!({"e":"Fail","what":format!("call does not return: {o}")}));
                p.kill();
                self.dead = true;
                false
            }
        }
    }
    pub fn record(&mut self, n: usize, o: Value, r: Value, io: bool) {
        if r["k"] == "log" {
            for e in r["v"].as_array().unwrap() {
                self.evs.push(e.clone());
            }
            return;
        }
        if o["op"] == "sync" || o["op"] == "gate" || o["op"] == "changes" {
            return;
        }
        if r["k"] == "panic" || r["k"] == "?" || r["k"] == "wrong name" {
            self.evs.push(json!({"e":"Fail","what":format!("{o}: {r}")}));
        }
        self.evs.push(json!({"e":"Do","p":n,"o":o,"r":r,"io":io}));
    }
    pub fn crash(&mut self, p: &mut Proc, n: usize) {
        p.kill();
        self.evs.push(json!({"e":"Crash","p":n,"o":[]}));
    }
    /// names of all corpora of the trace and everything in them
    pub fn look(&mut self, p: &mut Proc, n: usize, names: &[String]) -> bool {
        if !self.act(p, n, json!({"op":"list"})) {
            return false;
        }
        for c in names {
            if !self.act(p, n, json!({"op":"content","c":c})) {
                return false;
            }
        }
        true
    }
    pub fn finish(self, id: u64) -> Value {
        json!({"id": id, "ev": self.evs})
    }
}

// ------------------------------------------------------------------ generating calls
struct Gen {
    r: Rng,
    n: Names,
    mirrors: BTreeMap<String, Mirror>,
    corpora: Vec<String>,
    exports: Vec<String>,
    disk: usize,
}
impl Gen {
    fn new(seed: u64, corpora: Vec<String>) -> Gen {
        let mut r = Rng::new(seed);
        let odd = r.p(15);
        let mut n = names(&mut r, odd);
        if r.p(40) {
            n.nodes.truncate(4);
        }
        if r.p(30) {
            n.comps.push(comp("Pointing", "l", "a/b"));
            n.comps.push(comp("Pointing", "x/y", ""));
            n.comps.push(comp("Pointing", "l", ".."));
            n.comps.push(comp("Pointing", "%2E", "ü b"));
        }
        let disk = *r.pick(&[0usize, 0, 40, 100]);
        Gen { r, n, mirrors: BTreeMap::new(), corpora, exports: vec![], disk }
    }
    fn ops(&mut self, c: &str, faulty: bool) -> Value {
        let k = self.r.range(1, 5);
        let m = self.mirrors.entry(c.to_string()).or_default();
        let mut out = vec![];
        let mut m2 = m.clone();
        for _ in 0..k {
            let o = gen_op(&mut self.r, &self.n, &m2, 12, false);
            m2.apply(&o);
            out.push(o);
        }
        if faulty {
            let i = self.r.n(out.len() + 1);
            let bad = match self.r.n(3) {
                0 => Op::DN("missing".into()),
                1 => Op::AE("missing".into(), self.n.nodes[0].clone(), comp("Coverage", "annis", "")),
                _ => Op::DE(self.n.nodes[0].clone(), "missing".into(), comp("Dominance", "d", "")),
            };
            out.insert(i, bad);
        } else {
            *m = m2;
        }
        ops_json(&out)
    }
    fn apply(&mut self, c: &str) -> Value {
        let us = self.ops(c, false);
        json!({"op":"apply","c":c,"us":us})
    }
    fn bad_apply(&mut self, c: &str) -> Value {
        let us = self.ops(c, true);
        json!({"op":"apply","c":c,"us":us})
    }
    fn some(&mut self) -> String {
        self.r.pick(&self.corpora).clone()
    }
    fn disk(&mut self) -> bool {
        let d = self.disk;
        self.r.p(d)
    }
    fn any(&mut self) -> Value {
        let c = self.some();
        let exists = self.mirrors.contains_key(&c);
        if !exists && self.r.p(50) {
            self.mirrors.insert(c.clone(), Mirror::default());
            let d = self.disk();
            return json!({"op":"create","c":c,"disk":d});
        }
        let k = self.r.n(100);
        if k < 32 {
            self.apply(&c)
        } else if k < 38 {
            if exists { self.bad_apply(&c) } else { self.apply(&c) }
        } else if k < 46 {
            json!({"op":"unload","c":c})
        } else if k < 50 {
            json!({"op":"preload","c":c})
        } else if k < 56 {
            let d = self.disk();
            json!({"op":"reopt","c":c,"disk":d})
        } else if k < 64 {
            self.mirrors.remove(&c);
            json!({"op":"delete","c":c})
        } else if k < 69 {
            self.mirrors.entry(c.clone()).or_default();
            let d = self.disk();
            json!({"op":"create","c":c,"disk":d})
        } else if k < 73 {
            json!({"op":"list"})
        } else if k < 76 {
            json!({"op":"info","c":c})
        } else if k < 79 {
            json!({"op":"count","c":c})
        } else if k < 87 {
            json!({"op":"content","c":c})
        } else if k < 92 || self.exports.is_empty() {
            if !exists {
                return json!({"op":"list"});
            }
            let p = format!("f{}.graphml", self.r.n(2));
            if !self.exports.contains(&p) {
                self.exports.push(p.clone());
            }
            json!({"op":"export","c":c,"path":p})
        } else {
            let p = self.r.pick(&self.exports).clone();
            let over = self.r.p(60);
            let d = self.disk();
            if over || !exists {
                // what is in there is not tracked by the mirror
                self.mirrors.insert(c.clone(), Mirror::default());
            }
            json!({"op":"import","path":p,"c":c,"over":over,"disk":d})
        }
    }
}

fn open_op(r: &mut Rng) -> Value {
    match r.n(3) {
        0 => json!({"op":"open","cache":0}),
        1 => json!({"op":"open","cache":100000, "par": true}),
        _ => json!({"op":"open"}),
    }
}

/// random sequences of calls without faults: the storage is a map
fn map_trace(seed: u64) -> R<Value> {
    let mut se = Session::new()?;
    let mut r = Rng::new(seed ^ 0x5151);
    let mut corpora: Vec<String> = vec!["c1".into(), "c2".into()];
    if r.p(50) {
        corpora.push((*r.pick(&["ä/b", "c 1", "C1", "%41", "a:b*?", "..", ".", "c1.tmp", "backup", "current"])).into());
    }
    let mut g = Gen::new(seed, corpora.clone());
    let mut p = se.start();
    let gate = r.p(60);
    let mut n = 1;
    p.call(&json!({"op":"gate","v":gate}));
    se.act(&mut p, n, open_op(&mut r));
    let len = r.range(8, 22);
    for _ in 0..len {
        if se.dead {
            break;
        }
        let k = r.n(100);
        let alive = if k < 6 {
            let d = if gate && r.p(30) { 30 } else { 0 };
            se.act(&mut p, n, json!({"op":"close","delay":d})) && se.act(&mut p, n, open_op(&mut r))
        } else if k < 10 {
            se.crash(&mut p, n);
            p = se.start();
            n += 1;
            p.call(&json!({"op":"gate","v":gate}));
            se.act(&mut p, n, open_op(&mut r))
        } else if k < 25 && gate {
            let cnt = if r.p(50) { 1 } else { 1000 };
            se.act(&mut p, n, json!({"op":"sync","n":cnt}))
        } else {
            let o = g.any();
            let c = s(&o, "c");
            let op = s(&o, "op");
            let ok = se.act(&mut p, n, o);
            if ok && matches!(op.as_str(), "unload" | "reopt" | "import" | "delete") && r.p(50) {
                se.act(&mut p, n, json!({"op":"content","c":c}))
            } else {
                ok
            }
        };
        if !alive {
            break;
        }
    }
    if !se.dead && p.alive {
        se.look(&mut p, n, &corpora);
        se.act(&mut p, n, json!({"op":"close"}));
        se.act(&mut p, n, open_op(&mut r));
        se.look(&mut p, n, &corpora);
        se.act(&mut p, n, json!({"op":"close"}));
        for c in ["c1", "c2"] {
            se.act(&mut p, n, json!({"op":"direct","c":c}));
        }
    }
    drop(p);
    Ok(se.finish(seed))
}

/// the calls of a crash scenario: corpora are built, and changed once or twice
fn crash_script(seed: u64) -> (Vec<Value>, usize) {
    let mut r = Rng::new(seed ^ 0xabc);
    let corpora: Vec<String> = vec!["c1".into(), "c2".into()];
    let mut g = Gen::new(seed, corpora);
    let mut v = vec![json!({"op":"gate","v":true}), json!({"op":"open"})];
    let d = g.disk();
    let kind = r.n(10);
    if kind < 8 {
        v.push(json!({"op":"create","c":"c1","disk":d}));
        g.mirrors.insert("c1".into(), Mirror::default());
    }
    // history before the faults
    for _ in 0..r.n(3) {
        v.push(g.apply("c1"));
        if r.p(60) {
            v.push(json!({"op":"sync"}));
        }
    }
    if r.p(20) {
        let d = g.disk();
        v.push(json!({"op":"reopt","c":"c1","disk":d}));
    }
    if r.p(20) {
        v.push(json!({"op":"sync"}));
        v.push(json!({"op":"unload","c":"c1"}));
    }
    let from = v.len();
    match kind {
        0 => {
            v.push(json!({"op":"delete","c":"c1"}));
            g.mirrors.remove("c1");
            if r.p(50) {
                v.push(json!({"op":"create","c":"c1","disk":d}));
                v.push(g.apply("c1"));
            }
        }
        1 => {
            let p = "f.graphml";
            v.push(json!({"op":"export","c":"c1","path":p}));
            v.push(json!({"op":"import","path":p,"c":"c2","over":false,"disk":d}));
            if r.p(50) {
                v.push(json!({"op":"apply","c":"c2","us":[["AN","n9","node"]]}));
                v.push(json!({"op":"sync"}));
            }
        }
        2 => {
            let d = !d;
            v.push(json!({"op":"reopt","c":"c1","disk":d}));
            v.push(g.apply("c1"));
            v.push(json!({"op":"sync"}));
        }
        8 => {
            v.push(json!({"op":"create","c":"c1","disk":d}));
            v.push(g.apply("c1"));
            v.push(json!({"op":"sync"}));
        }
        9 => {
            v.push(g.apply("c1"));
            v.push(json!({"op":"sync"}));
        }
        _ => {
            for _ in 0..r.range(1, 3) {
                v.push(g.apply("c1"));
                if r.p(55) {
                    v.push(json!({"op":"sync","n": r.range(1, 3)}));
                }
            }
            if r.p(60) {
                v.push(json!({"op":"close"}));
            }
        }
    }
    (v, from)
}

/// runs a script until it ends or the process dies; returns the number of file system changes
fn run_script(se: &mut Session, p: &mut Proc, n: usize, v: &[Value], from: usize, fault: &Value, io: bool) -> u64 {
    let mut armed = false;
    for (i, o) in v.iter().enumerate() {
        if i == from {
            p.call(fault);
            armed = true;
        }
        if !se.act_io(p, n, o.clone(), io && armed) {
            return 0;
        }
    }
    if armed && let Outcome::Res(r) = p.call(&json!({"op":"changes"})) {
        return r["v"].as_u64().unwrap_or(0);
    }
    0
}

fn arm(dir: &Path, kind: &str, k: u64, n: u64) -> Value {
    json!({"op":"arm","dir":dir.to_string_lossy(),"kind":kind,"k":k,"n":n})
}

/// after the faults: look at everything, go on working, look again after reopening
fn aftermath(se: &mut Session, n: usize, seed: u64, twice: bool) {
    let both = vec!["c1".to_string(), "c2".to_string()];
    let mut n = n;
    let mut p = se.start();
    let r = &mut Rng::new(seed ^ 0x77);
    if !se.act(&mut p, n, json!({"op":"open"})) || !se.look(&mut p, n, &both) {
        return;
    }
    if twice {
        // opening and closing again does not matter
        if r.p(50) {
            se.act(&mut p, n, json!({"op":"close"}));
        } else {
            se.crash(&mut p, n);
            n += 1;
            p = se.start();
        }
        if !se.act(&mut p, n, json!({"op":"open"})) || !se.look(&mut p, n, &both) {
            return;
        }
    }
    let us = json!([["AN", "after", "node"], ["AL", "after", "ns", "pos", "z"], ["AN","after2","node"],
                    ["AE", "after", "after2", ["Pointing", "l", "dep"]]]);
    if !se.act(&mut p, n, json!({"op":"apply","c":"c1","us":us})) {
        return;
    }
    if !se.act(&mut p, n, json!({"op":"content","c":"c1"})) || !se.act(&mut p, n, json!({"op":"close"})) {
        return;
    }
    drop(p);
    let mut p = se.start();
    n += 1;
    if !se.act(&mut p, n, json!({"op":"open"})) || !se.look(&mut p, n, &both) {
        return;
    }
    se.act(&mut p, n, json!({"op":"close"}));
    for c in &both {
        se.act(&mut p, n, json!({"op":"direct","c":c}));
    }
}

/// one scenario, killed at many points; recovery is killed, too
fn crash_traces(seed: u64, points: usize, profile: &str, out: &mut Out) -> R<()> {
    let dry = {
        let mut se = Session::new()?;
        let (v, from) = crash_script(seed);
        let mut p = se.start();
        let f = arm(&se.dir.clone(), "none", 0, 0);
        let n = run_script(&mut se, &mut p, 1, &v, from, &f, false);
        drop(p);
        if se.dead || n == 0 {
            out.line(&se.finish(seed * 1000))?;
        }
        n
    };
    let mut r = Rng::new(seed ^ 0x3333);
    let mut pts: Vec<(u64, &str)> = vec![];
    for k in 1..=dry {
        pts.push((k, if r.p(20) { "torn" } else if r.p(15) { "after" } else { "before" }));
    }
    if pts.len() > points {
        r.shuffle(&mut pts);
        pts.truncate(points);
    }
    for (i, (k, kind)) in pts.iter().enumerate() {
        let mut se = Session::new()?;
        let (v, from) = crash_script(seed);
        let mut p = se.start();
        let mut n = 1;
        if profile == "error" {
            let f = arm(&se.dir.clone(), "error", *k, *r.pick(&[1u64, 1, 3, 100000]));
            run_script(&mut se, &mut p, n, &v, from, &f, true);
            p.call(&json!({"op":"disarm"}));
            if p.alive && !se.dead && v.last().is_some_and(|o| o["op"] == "close") {
                se.act(&mut p, n, json!({"op":"open"}));
            }
            if p.alive && !se.dead {
                let o = json!({"op":"content","c":"c1"});
                se.act(&mut p, n, o);
                if r.p(50) {
                    se.act(&mut p, n, json!({"op":"apply","c":"c1","us":[["AN","more","node"]]}));
                    se.act(&mut p, n, json!({"op":"sync"}));
                }
                if r.p(50) {
                    se.act(&mut p, n, json!({"op":"close"}));
                } else {
                    se.crash(&mut p, n);
                }
            }
        } else {
            let f = arm(&se.dir.clone(), kind, *k, 0);
            run_script(&mut se, &mut p, n, &v, from, &f, false);
            if p.alive && !se.dead {
                se.crash(&mut p, n);
            }
        }
        drop(p);
        // the recovery is killed as well
        let mut tries = 0;
        while profile == "recover" && !se.dead && tries < 2 && r.p(85) {
            tries += 1;
            n += 1;
            let mut p = se.start();
            let most = if r.p(50) { 12 } else { 90 };
            let j = 1 + r.n(most) as u64;
            let f = arm(&se.dir.clone(), r.clone().pick(&["before", "torn", "after"]), j, 0);
            let v = vec![json!({"op":"gate","v":true}), json!({"op":"open"}), json!({"op":"preload","c":"c1"}),
                         json!({"op":"content","c":"c1"}), json!({"op":"apply","c":"c1","us":[["AN",format!("rec{tries}"),"node"]]}),
                         json!({"op":"sync"})];
            run_script(&mut se, &mut p, n, &v, 1, &f, false);
            if p.alive && !se.dead {
                se.crash(&mut p, n);
            }
        }
        if !se.dead {
            aftermath(&mut se, n + 1, seed + i as u64, r.p(50));
        }
        out.line(&se.finish(seed * 1000 + i as u64))?;
    }
    Ok(())
}

/// several threads of one process
fn conc_trace(seed: u64) -> R<Value> {
    let mut se = Session::new()?;
    let mut r = Rng::new(seed ^ 0x9999);
    let corpora: Vec<String> = if r.p(60) { vec!["c1".into()] } else { vec!["c1".into(), "c2".into()] };
    let mut p = se.start();
    let mut n = 1;
    let o = open_op(&mut r);
    se.act(&mut p, n, o);
    for c in &corpora {
        if r.p(80) {
            let d = r.p(20);
            se.act(&mut p, n, json!({"op":"create","c":c,"disk":d}));
            se.act(&mut p, n, json!({"op":"apply","c":c,"us":[["AN","n0","node"]]}));
        }
    }
    for round in 0..r.range(1, 3) {
        let nt = r.range(2, 4);
        let destructive = r.p(40);
        let mut threads = vec![];
        for t in 0..nt {
            let mut ops = vec![];
            for i in 0..r.range(2, 5) {
                let c = r.pick(&corpora).clone();
                let k = r.n(100);
                let mut o = if k < 42 {
                    // each call adds a pair of nodes that belong together
                    let (a, b) = (format!("r{round}t{t}i{i}a"), format!("r{round}t{t}i{i}b"));
                    json!({"op":"apply","c":c,"us":[["AN",a,"node"],["AN",b,"node"],["AE",a,b,["Pointing","l","dep"]],["AL","n0","ns","last",a]]})
                } else if k < 58 {
                    json!({"op":"unload","c":c})
                } else if k < 64 {
                    json!({"op":"preload","c":c})
                } else if k < 72 {
                    json!({"op":"count","c":c})
                } else if k < 86 {
                    json!({"op":"content","c":c})
                } else if k < 90 {
                    json!({"op":"list"})
                } else if k < 93 {
                    json!({"op":"info","c":c})
                } else if destructive && k < 96 {
                    json!({"op":"delete","c":c})
                } else if destructive && k < 98 {
                    json!({"op":"create","c":c,"disk":false})
                } else {
                    json!({"op":"reopt","c":c,"disk":r.p(50)})
                };
                if r.p(50) {
                    o["pause"] = json!(r.n(3000));
                }
                ops.push(o);
            }
            threads.push(Value::Array(ops));
        }
        if !se.act(&mut p, n, json!({"op":"conc","threads":threads})) {
            break;
        }
        if !se.look(&mut p, n, &corpora) {
            break;
        }
    }
    if p.alive && !se.dead {
        if r.p(70) {
            se.act(&mut p, n, json!({"op":"close"}));
        } else {
            se.crash(&mut p, n);
            p = se.start();
            n += 1;
        }
        let o = open_op(&mut r);
        se.act(&mut p, n, o);
        se.look(&mut p, n, &corpora);
        se.act(&mut p, n, json!({"op":"close"}));
        for c in &corpora {
            se.act(&mut p, n, json!({"op":"direct","c":c}));
        }
    }
    drop(p);
    Ok(se.finish(seed))
}

/// several processes on one directory
fn lock_trace(seed: u64) -> R<Value> {
    let mut se = Session::new()?;
    let mut r = Rng::new(seed ^ 0x1ab);
    let cs = vec!["c1".to_string()];
    let mut procs: Vec<Proc> = vec![];
    let np = 3;
    for _ in 0..np {
        procs.push(se.start());
    }
    let gate = r.p(60);
    for p in procs.iter_mut() {
        p.call(&json!({"op":"gate","v":gate}));
    }
    let mut pid: Vec<usize> = (1..=np).collect();
    let mut next = np + 1;
    let mut open: Vec<bool> = vec![false; np];
    let mut cnt = 0;
    let len = r.range(8, 20);
    for _ in 0..len {
        if se.dead {
            break;
        }
        let i = r.n(np);
        if r.p(14) && open[i] {
            // the process dies
            let mut p = std::mem::replace(&mut procs[i], Proc::start(&se.dir));
            se.crash(&mut p, pid[i]);
            procs[i].call(&json!({"op":"gate","v":gate}));
            pid[i] = next;
            next += 1;
            open[i] = false;
            continue;
        }
        if !open[i] {
            let before = se.evs.len();
            se.act(&mut procs[i], pid[i], json!({"op":"open"}));
            open[i] = se.evs.get(before).map(|e| e["r"]["k"] == "ok").unwrap_or(false);
        } else {
            let k = r.n(100);
            if k < 20 {
                se.act(&mut procs[i], pid[i], json!({"op":"open2"}));
            } else if k < 50 {
                cnt += 1;
                se.act(&mut procs[i], pid[i], json!({"op":"apply","c":"c1","us":[["AN",format!("n{cnt}"),"node"]]}));
            } else if k < 62 {
                se.look(&mut procs[i], pid[i], &cs);
            } else {
                let d = if gate && r.p(60) { 60 } else { 0 };
                if r.p(45) {
                    // stop the closing just before the lock file disappears, and let others try
                    let mark = se.files.join(format!("m{}", se.evs.len())).to_string_lossy().to_string();
                    let wait = format!("{mark}.go");
                    procs[i].call(&json!({"op":"hold","where":"unlink","mark":mark,"wait":wait}));
                    let o = json!({"op":"close","delay":0});
                    procs[i].send(&o);
                    wait_for(&mark);
                    se.evs.push(json!({"e":"Closing","p":pid[i]}));
                    let j = (i + 1) % np;
                    let mut r1 = false;
                    if !open[j] {
                        let before = se.evs.len();
                        se.act(&mut procs[j], pid[j], json!({"op":"open"}));
                        r1 = se.evs.get(before).map(|e| e["r"]["k"] == "ok").unwrap_or(false);
                        open[j] = r1;
                    }
                    let _ = std::fs::write(&wait, b"x");
                    match procs[i].recv(60) {
                        Outcome::Res(rr) => se.record(pid[i], o, rr, false),
                        _ => {
                            se.evs.push(json!({"e":"Fail","what":"close does not return"}));
                            se.dead = true;
                        }
                    }
                    open[i] = false;
                    let _ = r1;
                    let k = (i + 2) % np;
                    if !open[k] && !se.dead {
                        let before = se.evs.len();
                        se.act(&mut procs[k], pid[k], json!({"op":"open"}));
                        open[k] = se.evs.get(before).map(|e| e["r"]["k"] == "ok").unwrap_or(false);
                    }
                } else if r.p(40) {
                    // another one has opened the lock file but not locked it when this one closes
                    let j = (i + 1) % np;
                    if open[j] {
                        continue;
                    }
                    let mark = se.files.join(format!("m{}", se.evs.len())).to_string_lossy().to_string();
                    let wait = format!("{mark}.go");
                    procs[j].call(&json!({"op":"hold","where":"lock","mark":mark,"wait":wait}));
                    let o = json!({"op":"open"});
                    procs[j].send(&o);
                    wait_for(&mark);
                    se.act(&mut procs[i], pid[i], json!({"op":"close","delay":d}));
                    open[i] = false;
                    let k = (i + 2) % np;
                    let first = r.p(50);
                    let mut third = |se: &mut Session, procs: &mut Vec<Proc>, open: &mut Vec<bool>| {
                        if !open[k] {
                            let before = se.evs.len();
                            se.act(&mut procs[k], pid[k], json!({"op":"open"}));
                            open[k] = se.evs.get(before).map(|e| e["r"]["k"] == "ok").unwrap_or(false);
                        }
                    };
                    if first {
                        third(&mut se, &mut procs, &mut open);
                    }
                    let _ = std::fs::write(&wait, b"x");
                    match procs[j].recv(60) {
                        Outcome::Res(rr) => {
                            open[j] = rr["k"] == "ok";
                            se.record(pid[j], o, rr, false);
                        }
                        _ => {
                            se.evs.push(json!({"e":"Fail","what":"open does not return"}));
                            se.dead = true;
                        }
                    }
                    if !first && !se.dead {
                        third(&mut se, &mut procs, &mut open);
                    }
                } else {
                    se.act(&mut procs[i], pid[i], json!({"op":"close","delay":d}));
                    open[i] = false;
                    // somebody else takes over at once
                    let j = (i + 1) % np;
                    if !open[j] && r.p(80) {
                        let before = se.evs.len();
                        se.act(&mut procs[j], pid[j], json!({"op":"open"}));
                        open[j] = se.evs.get(before).map(|e| e["r"]["k"] == "ok").unwrap_or(false);
                        if open[j] {
                            cnt += 1;
                            se.act(&mut procs[j], pid[j], json!({"op":"apply","c":"c1","us":[["AN",format!("n{cnt}"),"node"]]}));
                        }
                    }
                }
            }
        }
    }
    for i in 0..np {
        if open[i] && !se.dead {
            se.act(&mut procs[i], pid[i], json!({"op":"close"}));
        }
    }
    drop(procs);
    if !se.dead {
        let mut p = se.start();
        se.act(&mut p, next, json!({"op":"open"}));
        se.look(&mut p, next, &cs);
    }
    Ok(se.finish(seed))
}
fn wait_for(m: &str) {
    for _ in 0..2000 {
        if Path::new(m).exists() {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

pub fn run(a: &Args) -> R<()> {
    let profile = a.s("profile", "map");
    let n = a.u("n", 10);
    let seed = a.u("seed", 1);
    let shard = a.u("shard", 0);
    let shards = a.u("shards", 1);
    let only = a.m.get("only").and_then(|x| x.parse::<u64>().ok());
    let mut out = Out::create(&a.s("out", "/dev/stdout"))?;
    let points = a.u("points", 30) as usize;
    for i in 0..n {
        if i % shards != shard {
            continue;
        }
        let sd = only.unwrap_or(seed * 100_000 + i);
        match profile.as_str() {
            "map" => out.line(&map_trace(sd)?)?,
            "conc" => out.line(&conc_trace(sd)?)?,
            "lock" => out.line(&lock_trace(sd)?)?,
            p => crash_traces(sd, points, p, &mut out)?,
        }
        if only.is_some() {
            break;
        }
    }

    Ok(())
}
