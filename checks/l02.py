"""L02: samplers of several ranks partition the data.  Samplers.tla is the design and the guarantee; histories recorded from
real DistributedSampler objects (and whole loaders over them) are checked against the guarantee by TLC."""
import random
from cases import *
import l01


def run(ck):
    exe = B.build("rel", targets=("loaddrv",))["loaddrv"]
    rng = random.Random(ck.seed)
    th = ck.thorough
    # the design satisfies the guarantee: every order for small sizes, the natural one for larger; interleaved epochs
    for kw in (dict(Sizes={0, 1, 2, 3, 4}, Ranks={1, 2, 3, 4, 5}, Epochs={0}, MaxLog=0), dict(Sizes={3}, Ranks={1, 2, 4}, Epochs={0, 1}, MaxLog=4 if not th else 6)):
        r = run_tlc("Samplers", kw, ["PartitionHolds", "Reproducible", "Collected"], spec="Spec")
        ck.count(r)
    l01.samplers(ck, exe, rng, True, "L02")
    # loaders over the ranks' samplers: together they hand out the whole data set
    hs, ms, jobs, meta = [], [], [], {}
    for c, (n, R, b) in enumerate([(n, R, b) for n in (1, 5, 12, 23, 40) for R in (1, 2, 3, 4) for b in (1, 4, 7)]):
        for drop in (False, True):
            for r in range(R):
                L = [f"DS {n}", f"SMP s dist {n} {R} {r} 1 {c} {int(drop)}", "IDX s", f"LD {b} 0 s", "ALL 1"]
                k = f"{c}-{int(drop)}-{r}"
                jobs.append((k, L))
                meta[k] = (n, R, b, drop, r, L)
    res = run_driver(exe, jobs)
    for k, (n, R, b, drop, r, L) in meta.items():
        st, obs = res[k]
        what = f"loader of rank {r} of {R} over {n} samples, batches of {b}"
        if st != 0:
            ck.violation("L02:loader", f"{what}: terminated abnormally ({st})", {"script": L})
            continue
        idx = l01.events(obs)[0]["list"]
        h, m = l01.history(n, b, False, "list", idx, obs)
        if m:
            ck.violation("L02:loader", f"{what}: {m}", {"script": L})
            continue
        hs.append(h)
        ms.append(("loader", what, L))
    old = ck.pid
    text = "\n".join(json.dumps(h) for h in hs) + "\n"
    r = run_tlc("LoaderTrace", {"Sizes": set(), "Batches": set(), "MaxLog": 0}, ["Report", "Sized"], spec="TSpec", files={"traces.ndjson": text})
    ck.count(r)
    ok = {x["ok"] for x in r.records if "ok" in x}
    for i, (key, what, L) in enumerate(ms):
        ck.traces += 1
        if i + 1 not in ok:
            ck.violation("L02:" + key, f"{what}: not a behaviour of the loader specification", {"script": L, "history": hs[i]})
    ck.assumptions += ["ranks are numbered 0..R-1 and R >= 1", "two orders of 12 or more samples that are independent do not coincide",
                       "how the global order is dealt out to the ranks is free"]
