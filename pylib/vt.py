"""Shared machinery of the checks: TLC runs, driver runs, comparison, evidence."""
import hashlib, json, math, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "pylib"))
import build as B

SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class ModelError(Exception):
    pass


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    raise TypeError(v)


class Raw(str):
    pass


class TlcResult:
    def __init__(self):
        self.records, self.generated, self.distinct, self.depth, self.out, self.ok, self.sim_traces = [], 0, 0, 0, "", False, 0


def together(thunks, jobs=4):
    """Runs independent TLC runs side by side; results in order."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda f: f(), thunks))


def run_tlc(module, consts=None, invariants=(), init="Init", nxt="Next", spec=None, mode="mc", num=None, depth=None,
            seed=1, workers=NCPU, constraints=(), action_constraints=(), properties=(), postcondition=None,
            deadlock=False, timeout=800, heap="6g", files=None, symmetry=None, view=None, expect_ok=True, coverage=False,
            dfid=None):
    """Runs TLC on spec/<module>.tla.  Returns TlcResult; records = JSON values printed with PrintT(ToJson(..))."""
    work = tempfile.mkdtemp(prefix="tlc-", dir=os.path.join(B.BUILD) if os.path.isdir(B.BUILD) else None)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
        for name, text in (files or {}).items():
            p = os.path.join(work, name)
            if os.path.islink(p):
                os.unlink(p)
            with open(p, "w") as fh:
                fh.write(text)
        # constants that are not plain cfg values go through a wrapper module
        wrap = "W_" + module
        defs, cfg = [], []
        for i, (k, v) in enumerate((consts or {}).items()):
            defs.append(f"vt_{k} == {v if isinstance(v, Raw) else tla(v)}")
            cfg.append(f"CONSTANT {k} <- vt_{k}")
        with open(os.path.join(work, wrap + ".tla"), "w") as fh:
            fh.write(f"---- MODULE {wrap} ----\nEXTENDS {module}\n" + "\n".join(defs) + "\n====\n")
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg += [f"INIT {init}", f"NEXT {nxt}"]
        for x in invariants:
            cfg.append(f"INVARIANT {x}")
        for x in properties:
            cfg.append(f"PROPERTY {x}")
        for x in constraints:
            cfg.append(f"CONSTRAINT {x}")
        for x in action_constraints:
            cfg.append(f"ACTION_CONSTRAINT {x}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        if symmetry:
            cfg.append(f"SYMMETRY {symmetry}")
        if view:
            cfg.append(f"VIEW {view}")
        cfg.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
        with open(os.path.join(work, wrap + ".cfg"), "w") as fh:
            fh.write("\n".join(cfg) + "\n")
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={work}", "-cp", JAR, "tlc2.TLC",
               "-metadir", os.path.join(work, "md"), "-config", wrap + ".cfg", "-fpmem", "0.2"]
        if mode == "sim":
            cmd += ["-simulate", f"num={num}", "-depth", str(depth or 100), "-seed", str(seed), "-workers", str(workers)]
        else:
            cmd += ["-workers", str(workers)]
            if dfid:
                cmd += ["-dfid", str(dfid)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(wrap + ".tla")
        r = TlcResult()
        try:
            p = subprocess.run(cmd, cwd=work, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ModelError(f"TLC timed out on {module}")
        text = p.stdout
        other, raw = [], []
        for l in text.splitlines():
            if l.startswith('"') and l.endswith('"') and len(l) > 2 and l[1] in "{[":
                raw.append(l)
                continue
            other.append(l)
        raw.sort()  # workers print in any order
        for l in raw:
            try:
                r.records.append(json.loads(json.loads(l)))
            except ValueError:
                other.append(l)
        r.out = "\n".join(other)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
        if m:
            r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"The number of states generated: (\d+)", r.out)
        if m:
            r.generated = r.distinct = int(m[-1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", r.out)
        if m:
            r.depth = int(m[-1])
        m = re.findall(r"(\d+) traces generated", r.out)
        if m:
            r.sim_traces = int(m[-1])
        r.ok = p.returncode == 0
        r.rc = p.returncode
        if expect_ok and not r.ok:
            raise ModelError(f"TLC failed on {module} (rc {p.returncode}):\n" + r.out[-3000:] + p.stderr[-1000:])
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------------------------------------------------------- driver
def run_driver(exe, cases, jobs=NCPU, timeout=600, env=None, batch=1):
    """cases: list of (id, [script lines]).  Returns {id: (status, [observation lines])}; status 0 | 'sig N' | 'exit N'."""
    res = {}
    if not cases:
        return res

    def work(chunk):
        out = {}
        script = []
        for i, lines in chunk:
            script.append(f"CASE {i}")
            script += lines
        rfd, wfd = os.pipe()
        p = subprocess.Popen(["bash", "-c", f'exec "$0" 3>&{wfd} {wfd}>&-', exe] if wfd != 3 else [exe], stdin=subprocess.PIPE,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, pass_fds=(wfd,), env=env)
        os.close(wfd)
        import threading
        err = []
        te = threading.Thread(target=lambda: err.append(p.stderr.read()))
        te.start()

        def feed():
            try:
                p.stdin.write(("\n".join(script) + "\n").encode())
                p.stdin.close()
            except BrokenPipeError:
                pass
        tf = threading.Thread(target=feed)
        tf.start()
        buf = []
        with os.fdopen(rfd, "r", errors="replace") as f:
            for l in f:
                buf.append(l.rstrip("\n"))
        p.wait()
        te.join()
        tf.join()
        cur, obs = None, []
        order = [str(i) for i, _ in chunk]
        k = 0
        for l in buf:
            if not l.startswith("@"):
                continue
            l = l[1:]
            if l.startswith("C "):
                cur, obs = l[2:], []
            elif l == "E":
                continue
            elif l.startswith("X "):
                st = 0 if l == "X 0" else l[2:].split(" ")[0] + " " + l.split(" ")[-1]
                out[order[k]] = (st, obs if cur == order[k] else [])
                k += 1
                cur, obs = None, []
            else:
                obs.append(l)
        e = (err[0] or b"").decode(errors="replace")
        if k != len(order):
            raise ModelError(f"driver stopped early ({k}/{len(order)}), rc {p.returncode}: {e[-1500:]}")
        for i, (st, ob) in out.items():
            if st == "exit 9":
                raise ModelError(f"driver rejected the script of case {i}: {e[-1500:]}")
        if e and env and "ASAN_OPTIONS" in env:
            out["_stderr"] = (0, [e[-20000:]])
        return out

    n = max(1, min(jobs, len(cases)))
    chunks = [cases[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        for o in ex.map(work, chunks):
            for k, v in o.items():
                res[k] = v
    return res


def fnum(x):
    if isinstance(x, str):
        return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[x]
    return float(x)


def close(a, b, tol):
    if isinstance(a, tuple):  # any of several admissible values
        return any(close(x, b, tol) for x in a)
    a, b = fnum(a), fnum(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    if tol == 0 or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same_tensor(exp, got, tol=0):
    if got.get("u"):
        return False
    if list(exp["s"]) != list(got["s"]) or len(exp["d"]) != len(got["d"]):
        return False
    return all(close(a, b, tol) for a, b in zip(exp["d"], got["d"]))


def csv(xs):
    return ",".join(str(x) for x in xs) if len(xs) else "-"


# ---------------------------------------------------------------------------------------------------------------- report
class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.viol = []
        self.known_hits = {}
        self.states = self.trans = self.traces = 0
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.sets = {}
        self.known = []
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == pid:
                    self.known.append((m.group(2), m.group(3)))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def count(self, r):
        self.states += r.distinct
        self.trans += r.generated

    def sample(self, x, cap=6):
        """Remembers actual cases of this run for the evidence file (a spread of them, not just the first)."""
        self._seen = getattr(self, "_seen", 0) + 1
        if len(self.samples) < cap:
            self.samples.append(x)
        elif (self._seen * 2654435761 >> 7) % self._seen < cap:
            self.samples[(self._seen * 40503 >> 3) % cap] = x

    def violation(self, key, msg, replay):
        self.nviol = getattr(self, "nviol", {})
        self.nviol[key] = self.nviol.get(key, 0) + 1
        for k, d in self.known:
            if k == key:
                self.known_hits[k] = d
                return
        if self.nviol[key] <= 1:
            self.viol.append((key, msg, replay))

    def finish(self, level="model_checking", extra=None):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for k, d in sorted(self.known_hits.items()):
            print(f"KNOWN-FINDING: property={self.pid} {d}")
        paths = []
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for f in os.listdir(rd):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rd, f))
        for n, (key, msg, replay) in enumerate(self.viol[:60]):
            p = os.path.join(rd, f"{self.pid}-{n}.json")
            with open(p, "w") as f:
                json.dump({"property": self.pid, "key": key, "what": msg, "replay": replay}, f, indent=1, default=str)
            paths.append(p)
        seen = set()
        for (key, msg, _), p in zip(self.viol[:60], paths):
            print(f"VIOLATION property={self.pid} replay={p}")
            print(f"  {msg}"[:1500])
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                           "samples": self.samples, **(extra or {}), **self.sets},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid} {self.tier}: {'HOLDS' if not self.viol else str(len(self.viol)) + ' violation(s)'} "
              f"states={self.states} traces={self.traces} wall={ev['wall_s']}s")
        sys.stdout.flush()
        return 1 if self.viol else 0
