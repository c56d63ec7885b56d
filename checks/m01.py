"""M01: the caching allocator.  CachedAlloc.tla is the design (checked exhaustively and sampled) and supplies histories of
requests; each is carried out on the real allocator over a recording stand-in and the record is checked against HeapTrace."""
import random
from cases import *

K, M = 1024, 1048576
EDGE = {0, 1, 511, 512, 513, 4096, M // 2, M - 512, M - 511, M, M + 1, 2 * M - 512, 2 * M, 5 * M, 9 * M + 511, 10 * M - 1, 10 * M, 10 * M + 1, 12 * M, 20 * M, 22 * M + 1}


def check(ck, exe, logs, label, conc=None):
    jobs = []
    for k, ops in enumerate(logs):
        jobs.append((f"h{k}", ["NEW"] + ops + ["DESTROY"]))
    for k, (T, n, s) in enumerate(conc or []):
        jobs.append((f"t{k}", ["NEW", f"THREADS {T} {n} {s}", "DESTROY"]))
    res = run_driver(exe, jobs, jobs=4 if conc else NCPU)
    hs, ms = [], []
    for k, L in jobs:
        st, obs = res[k]
        ev = [json.loads(o) for o in obs if o.startswith("{")]
        bad = [e for e in ev if e["e"] == "bad" and e["n"]]
        ev = [e for e in ev if e["e"] != "bad"]
        key = "M01:threads" if k[0] == "t" else "M01:switch" if any(o in ("on", "off") for o in L) else "M01:history"
        if st != 0:
            ck.violation(key, f"{label}: terminated abnormally ({st}) on {' ; '.join(L)[:600]}", {"script": L, "observed": obs[-5:]})
            continue
        if bad:
            ck.violation(key, f"{label}: {bad[0]['n']} blocks were overwritten while in use: {' ; '.join(L)[:300]}", {"script": L})
            continue
        hs.append({"conc": k[0] == "t", "events": ev})
        ms.append((key, L))
    if not hs:
        return
    oks = set()
    # a corrupted copy must be rejected
    src = next((h for h in hs if not h["conc"] and sum(e["e"] == "alloc" for e in h["events"]) > 1), None)
    extra = []
    if src:
        bad = json.loads(json.dumps(src))
        for e in bad["events"]:
            if e["e"] == "alloc":
                e["r"] = 9999
        extra = [bad]
    for a in range(0, len(hs), 3000):
        part = hs[a:a + 3000] + (extra if a == 0 else [])
        r = run_tlc("HeapTrace", {}, ["Report"], spec="Spec", files={"traces.ndjson": "\n".join(json.dumps(h) for h in part) + "\n"}, heap="8g")
        ck.count(r)
        got = {x["ok"] for x in r.records}
        if a == 0 and extra and len(part) in got:
            raise ModelError("a corrupted history was accepted")
        oks |= {a + g for g in got}
    for i, (key, L) in enumerate(ms):
        ck.traces += 1
        if i + 1 not in oks:
            ck.violation(key, f"{label}: what the allocator did is not allowed by the specification: {' ; '.join(L)[:600]}", {"script": L, "events": hs[i]["events"][:400]})
        else:
            ck.sample({"ops": L[:12], "events": len(hs[i]["events"])})


def ops(c):
    return [f"{o['k']} {o['n']}" if o["k"] in ("alloc", "free") else o["k"] for o in c["log"]]


def run(ck):
    exe = B.build("rel", targets=("allocdrv",))["allocdrv"]
    th = ck.thorough
    rng = random.Random(ck.seed)
    inv = ["Disjoint", "Backed", "Covered", "LargeEnough", "Merged"]
    logs = []
    for sizes, live, n in (({1, 513, M, M + 1}, 3, 5), ({5 * M, 10 * M, 15 * M}, 3, 5), ({M // 2, M, 2 * M}, 4, 6 if th else 5), ({600 * K}, 4, 8 if th else 7)):
        r = run_tlc("CachedAlloc", {"Sizes": sizes, "MaxLive": live, "MaxOps": n, "MaxRegions": 6}, inv + ["Emit"], spec="Spec")
        ck.count(r)
        logs += [ops(c) for c in r.records]
    cap = 20000 if th else 4000
    if len(logs) > cap:
        logs = [logs[i * len(logs) // cap] for i in range(cap)]
    for sizes, live, n, num in ((EDGE, 12, 60, 40), ({1, 512, 700, 4096, 60000, 300000, 700000, M}, 20, 120, 25), ({M + 1, 3 * M, 4 * M, 7 * M + 5, 10 * M - 1, 10 * M, 19 * M, 33 * M, 900 * M, 1900 * M}, 10, 80, 25)):
        r = run_tlc("CachedAlloc", {"Sizes": sizes, "MaxLive": live, "MaxOps": n, "MaxRegions": 60}, inv + ["Emit"], spec="SampleSpec", mode="sim", num=num * (8 if th else 1), depth=n + 2, seed=ck.seed)
        ck.count(r)
        seen = set()
        for c in r.records:
            o = ops(c)
            if str(o) not in seen:
                seen.add(str(o))
                logs.append(o)
    # long histories with one size class each, and repeated identical rounds
    for s in sorted(EDGE):
        logs.append([f"alloc {s}"] * 5 + ["free 1"] * 5 + [f"alloc {s}"] * 5 + ["free 5", "free 4", "free 3", "free 2", "free 1", f"alloc {s}", "free 1"])
    for _ in range(200 if th else 40):
        rnd = [rng.choice(sorted(EDGE)) for _ in range(rng.randrange(2, 9))]
        fr = []
        for k in range(len(rnd), 0, -1):
            fr.append(f"free {rng.randrange(k) + 1}")
        logs.append((([f"alloc {x}" for x in rnd] + fr) * 3)[:150])
    check(ck, exe, logs, "history")
    check(ck, exe, [], "threads", [(T, n, ck.seed + k) for k, (T, n) in enumerate([(2, 400), (4, 300), (8, 150)] * (6 if th else 2))])
    ck.assumptions += ["requested sizes are not negative", "the allocator is destroyed only when nothing it handed out is in use", "the underlying allocator grants at most 10^9 bytes at a time"]
