"""Machinery shared by all checks: building the harness, recording traces of the real code with it,
validating them with TLC, model checking, known findings, evidence."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, "work")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1")
    e.pop("CARGO_TARGET_DIR", None)
    return e


def build():
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HARNESS, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        raise CheckError("building the harness failed")
    log(f"harness built in {time.time()-t:.1f}s")
    return os.path.join(HARNESS, "target", "debug", "vh")


def build_web():
    """The web service of /repo as a program of its own."""
    t = time.time()
    d = os.path.join(VERIF, "webapp")
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=d, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        raise CheckError("building the web service failed")
    log(f"web service built in {time.time()-t:.1f}s")
    return os.path.join(d, "target", "debug", "webservice")


def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    if base:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < 2_000_000_000:
            base = None
    return tempfile.mkdtemp(prefix="vh-", dir=base)


def limit_memory():
    # code that runs away must not take down the machine
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.dir = scratch()
        self.rejects = []      # (job, dict)
        self.events = {}       # event kind -> count
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.distinct = set()
        self.nontrivial = 0
        self.samples = []
        self.models = []
        self.notes = []
        self.known = load_known(prop)
        self.known_hit = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- drivers
    def drive(self, vh, job, args, shards=SHARDS, timeout=300, env=None):
        """Runs the driver in several processes, returns the trace files."""
        d = os.path.join(self.dir, job)
        os.makedirs(d, exist_ok=True)
        files = []

        def one(i):
            out = os.path.join(d, f"{i}.ndjson")
            tmp = os.path.join(d, f"tmp{i}")
            os.makedirs(tmp, exist_ok=True)
            e = dict(os.environ)
            e["TMPDIR"] = tmp
            e["RAYON_NUM_THREADS"] = "2"
            if env:
                e.update(env)
            cmd = [vh] + [str(a) for a in args] + ["--seed", str(SEED * 1000 + i), "--shard", str(i),
                                                   "--shards", str(shards), "--out", out]
            try:
                p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                                   preexec_fn=limit_memory)
                rc, err = p.returncode, p.stderr.decode(errors="replace")[-2000:]
            except subprocess.TimeoutExpired:
                rc, err = "timeout", ""
            shutil.rmtree(tmp, ignore_errors=True)
            return out, rc, err, cmd

        with ThreadPoolExecutor(shards) as ex:
            for out, rc, err, cmd in ex.map(one, range(shards)):
                if rc == 2:
                    log(err)
                    raise CheckError(f"driver error: {' '.join(cmd)}")
                if rc != 0:
                    # the process died or hung while executing the code under test
                    what = "did not finish" if rc == "timeout" else f"process ended with {rc}"
                    self.rejects.append((job, dict(trace=-1, line=0, event=0, what=what, expected="normal end",
                                                   got=err[-500:], cmd=" ".join(cmd)), None))
                if os.path.exists(out) and os.path.getsize(out) > 0:
                    fix_last_line(out)
                    files.append(out)
        return files

    # ---------------------------------------------------------------- TLC on traces
    def validate(self, job, spec, files, timeout=800, nontrivial=None, cfg=None, workers=1, extra_states=0):
        expected_states = 0

        def count(f):
            n = 0
            with open(f) as fh:
                for line in fh:
                    t = json.loads(line)
                    self.traces += 1
                    n += len(t["ev"]) + 1
                    for e in t["ev"]:
                        self.events[e["e"]] = self.events.get(e["e"], 0) + 1
                    h = hashlib.md5(line.split('"ev"', 1)[-1].encode()).digest()
                    if h not in self.distinct:
                        self.distinct.add(h)
                        if nontrivial is None or nontrivial(t):
                            self.nontrivial += 1
                    if len(self.samples) < 2 and (nontrivial is None or nontrivial(t)) and len(line) < 20000:
                        self.samples.append(shorten(t))
            return n

        def one(f):
            md = f + ".md"
            e = dict(os.environ)
            e["TRACE"] = f
            cmd = ["java", "-Xss64m", "-Xmx3g", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC",
                   "-workers", str(workers), "-metadir", md, "-config", cfg or (spec + ".cfg"), spec + ".tla"]
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
                o = p.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired as ex:
                o = (ex.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
            shutil.rmtree(md, ignore_errors=True)
            return f, o

        files = [f for f in files if os.path.getsize(f) > 0]
        counts = {f: count(f) for f in files}
        with ThreadPoolExecutor(SHARDS) as ex:
            results = list(ex.map(one, files))
        for f, o in results:
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", o)
            rej = parse_rejects(o)
            lines = None
            for r in rej:
                if lines is None:
                    lines = open(f).read().splitlines()
                tr = json.loads(lines[r["line"] - 1])
                self.rejects.append((job, r, tr))
            if "TIMEOUT" in o[-20:] or not m or "Error:" in o:
                # a violated invariant of the abstract state is an error of the specification
                i = o.find("Error:")
                log(o[max(0, i - 200): i + 3000] if i >= 0 else o[-3000:])
                raise CheckError(f"TLC failed on {spec} ({job})")
            gen, dist, left = map(int, m[-1])
            self.states += dist
            self.transitions += gen - 1
            if dist != counts[f] + extra_states or left != 0:
                log(o[-1500:])
                raise CheckError(f"{spec}: trace not consumed: {dist} states, {counts[f]} expected")
        return results

    def known_match(self, job, r, tr):
        for k in self.known:
            if k.get("job") not in (None, job):
                continue
            if "trace" in k and str(k["trace"]) != str(r["trace"]):
                continue
            if "event" in k and k["event"] != r["event"]:
                continue
            if "what" in k and k["what"] != r["what"]:
                continue
            if "got" in k and json.dumps(k["got"], sort_keys=True) not in json.dumps(r["got"], sort_keys=True):
                continue
            return k
        return None

    # ---------------------------------------------------------------- model checking
    def model(self, name, cfg=None, spec=None, timeout=600, workers=SHARDS, expect_violation=None, simulate=None, mem="8g"):
        spec = spec or name
        md = os.path.join(self.dir, "mc-" + name + (cfg or ""))
        cmd = ["java", "-Xss64m", "-Xmx" + mem, "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
               "-metadir", md, "-config", cfg or (name + ".cfg")]
        if simulate:
            cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(SEED)]
        cmd += [spec + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            o = p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {name}")
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
        viol = re.search(r"(Invariant|Action property|Temporal propert\w+) ?(\w*).*violated", o)
        if expect_violation:
            if not viol:
                log(o[-3000:])
                raise CheckError(f"{name}: the deliberately broken variant was not rejected")
            self.models.append(dict(model=name, cfg=cfg, rejected_as_expected=viol.group(0)))
            return o
        if "No error has been found" not in o and not simulate:
            log(o[-5000:])
            raise CheckError(f"model {name} failed")
        if simulate and "Error:" in o:
            log(o[-5000:])
            raise CheckError(f"model {name} failed")
        g, dis = map(int, m[-1]) if m else (0, 0)
        self.states += dis
        self.transitions += g
        self.models.append(dict(model=name, cfg=cfg or name + ".cfg", distinct_states=dis, generated=g,
                                seconds=round(time.time() - t, 1)))
        return o

    # ---------------------------------------------------------------- result
    def finish(self, level, assumptions, extra=None, rule=""):
        viol = []
        for job, r, tr in self.rejects:
            k = self.known_match(job, r, tr)
            if k:
                self.known_hit.setdefault(k["id"], 0)
                self.known_hit[k["id"]] += 1
            else:
                viol.append((job, r, tr))
        for k in self.known:
            if k["id"] in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['fails']}")
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   evaluations=sum(self.events.values()), distinct_nontrivial=self.nontrivial,
                   rule=rule, samples=self.samples, events=self.events, models=self.models)
        if extra:
            cov.update(extra)
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level,
                  coverage=cov, assumptions=assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.close()
        if viol:
            rd = os.path.join(WORK, "replay")
            os.makedirs(rd, exist_ok=True)
            seen = set()
            for i, (job, r, tr) in enumerate(viol):
                key = (job, r["what"])
                if key in seen and i > 3:
                    continue
                seen.add(key)
                p = os.path.join(rd, f"{self.prop}-{job}-{i}.json")
                if i < 40:
                    with open(p, "w") as f:
                        json.dump(dict(property=self.prop, job=job, reject=r, trace=tr), f)
                    log(f"rejected: {job} trace {r['trace']} event {r['event']}: {r['what']}")
                    log("   expected", json.dumps(r["expected"])[:400])
                    log("   got     ", json.dumps(r["got"])[:400])
                    print(f"VIOLATION property={self.prop} replay={p}")
            log(f"{len(viol)} rejected events")
            return 1
        print(f"OK property={self.prop} traces={self.traces} events={sum(self.events.values())} states={self.states} "
              f"in {time.time()-self.t0:.1f}s")
        return 0


def shorten(t):
    s = json.dumps(t)
    return json.loads(s) if len(s) < 6000 else dict(id=t["id"], ev=t["ev"][:2])


def fix_last_line(path):
    """A driver that died may leave an incomplete last line."""
    with open(path, "rb") as f:
        data = f.read()
    if data and not data.endswith(b"\n"):
        data = data[: data.rfind(b"\n") + 1]
        with open(path, "wb") as f:
            f.write(data)


def parse_rejects(o):
    r = []
    for line in o.splitlines():
        if line.startswith('"REJECT '):
            s = json.loads(line)
            r.append(json.loads(s[len("REJECT "):]))
    return r


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("fixed:") or line.startswith("#"):
                continue
            k = json.loads(line)
            if k["property"] == prop:
                res.append(k)
    return res
