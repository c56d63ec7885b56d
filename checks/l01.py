"""L01: data loading.  The loader is modelled (Loader.tla); histories of real loaders are recorded and checked by TLC."""
import random, struct
from cases import *


def events(obs):
    return [json.loads(o) for o in obs if o.startswith("{")]


def batch_event(e):
    f = e["f"]
    return {"e": e["e"], "it": e["it"], "no": e["no"], "shape": [x["shape"] for x in f], "data": [x["d"] for x in f]}


def script(rng, n, b, drop, kind, lst, seed):
    """One history: make a loader, ask its size, then interleave iterators."""
    L = [f"DS {n}", f"GSEED {seed}"]
    if kind == "sequential":
        L += [f"SMP s seq {n}", "IDX s"]
    elif kind == "random":
        L += [f"SMP s rand {n} {seed}", f"EPOCH s {seed % 3}", "IDX s"]
    elif kind == "list":
        L += ["SMP s list " + (",".join(map(str, lst)) or "-"), "IDX s"]
    L.append(f"LD {b} {int(drop)} " + {"natural": "natural", "shuffle": "shuffle"}.get(kind, "s"))
    cnt = len(lst) if kind == "list" else n
    size = cnt // b if drop else -(-cnt // b)
    L.append("ALL 1")
    its = [size]
    for _ in range(rng.randrange(0, 2)):
        L.append(f"ALL {len(its) + 1}")
        its.append(size)
    budget = min(24, 3 * size + 6)
    for _ in range(budget):
        k = rng.randrange(0, 8)
        if k == 0 and len(its) < 4:
            L.append("BEGIN")
            its.append(0)
        elif its:
            i = rng.randrange(len(its))
            op = "PEEK" if k < 2 else "TAKE"
            L.append(f"{op} {i + 1}")
            its[i] = min(size, its[i] + (op == "TAKE"))
    return L


def history(n, b, drop, kind, lst, obs):
    ev = events(obs)
    out, idx, size = [], None, None
    for e in ev:
        if e["e"] == "idx":
            idx = e["list"]
            if e["size"] != len(idx):
                return None, f"sampler size {e['size']} but {len(idx)} indices"
        elif e["e"] == "size":
            size = e
        elif e["e"] in ("take", "peek"):
            if len(e["f"]) != 3:
                return None, f"a batch has {len(e['f'])} fields instead of 3"
            out.append(batch_event(e))
        else:
            out.append(e)
    if size is None:
        return None, "no loader was made"
    mk = {"e": "make"}
    if kind == "random":
        mk["order"] = idx
    elif kind == "shuffle":
        seen, first = [], None
        for e in out:
            if e["e"] == "take" and e["it"] == 1:
                seen += e["data"][1]
        rest = sorted(set(range(n)) - set(seen)) if drop else []
        mk["order"] = seen + rest
    h = {"n": n, "b": b, "drop": bool(drop), "kind": kind, "list": lst or [], "events": [mk, size] + out}
    if kind in ("sequential",) and idx != list(range(n)):
        return None, f"the sequential sampler gives {idx[:20]}"
    if kind == "list" and idx != lst:
        return None, "harness sampler"
    # BEGIN is silent in the driver: put it back
    return h, None


def with_begins(L, h):
    """The driver does not report BEGIN; rebuild the event order from the script."""
    ev = iter(h["events"][2:])
    out = h["events"][:2]
    for l in L:
        w = l.split()
        if w[0] == "BEGIN":
            out.append({"e": "begin"})
        elif w[0] == "ALL":
            for e in ev:
                out.append(e)
                if e["e"] == "end":
                    break
        elif w[0] in ("TAKE", "PEEK"):
            e = next(ev, None)
            if e is not None:
                out.append(e)
    h["events"] = out
    return h


def judge(ck, hs, metas, label):
    """hs: histories in trace form; TLC says which are behaviours of the specification."""
    if not hs:
        return
    # a corrupted copy of one history must be rejected (the binding is live)
    bad = json.loads(json.dumps(next(h for h in hs if any(e["e"] == "take" for e in h["events"]))))
    next(e for e in bad["events"] if e["e"] == "take")["data"][0][0] += 1
    text = "\n".join(json.dumps(h) for h in hs + [bad]) + "\n"
    r = run_tlc("LoaderTrace", {"Sizes": set(), "Batches": set(), "MaxLog": 0}, ["Report", "Sized"],
                spec="TSpec", files={"traces.ndjson": text}, heap="8g")
    ck.count(r)
    ok = {x["ok"] for x in r.records if "ok" in x}
    if len(hs) + 1 in ok:
        raise ModelError("a corrupted history was accepted")
    for i, (h, (key, what, L)) in enumerate(zip(hs, metas)):
        ck.traces += 1
        if i + 1 not in ok:
            ck.violation("L01:" + key, f"{what}: the recorded history is not a behaviour of the loader specification", {"script": L, "history": h})
        else:
            ck.sample({"case": what, "events": len(h["events"])})


def mnist(ck, exe, rng):
    """Files written here, read through DatasetMNIST and a chain of transforms chosen so that exact results are integers / 255."""
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix="mnist-", dir=B.BUILD)
    jobs, exp = [], {}
    try:
        combos = []
        for (ni, nl) in ((0, 0), (1, 1), (3, 3), (5, 4), (4, 6), (300, 300)):
            for (hh, ww) in ((1, 1), (2, 3), (28, 28)):
                for tr in ("", "plain", "compose", "list", "compose2", "list2", "compose3"):
                    combos.append((ni, nl, hh, ww, tr))
        rng.shuffle(combos)
        for c, (ni, nl, hh, ww, tr) in enumerate(combos if ck.thorough else combos[:48]):
            d = os.path.join(tmp, str(c)) + "/"
            os.makedirs(d)
            train = c % 2
            pre = "train" if train else "t10k"
            px = [[rng.randrange(256) for _ in range(hh * ww)] for _ in range(ni)]
            lb = [rng.randrange(10) if rng.random() < .8 else rng.randrange(256) for _ in range(nl)]
            with open(d + pre + "-images-idx3-ubyte", "wb") as f:
                f.write(struct.pack(">iiii", 0x803, ni, hh, ww) + b"".join(bytes(p) for p in px))
            with open(d + pre + "-labels-idx1-ubyte", "wb") as f:
                f.write(struct.pack(">ii", 0x801, nl) + bytes(lb))
            steps = [(rng.randrange(0, 200), rng.randrange(0, 3)) for _ in range({"": 0, "plain": 1, "compose": 1, "list": 1, "compose2": 2, "list2": 2, "compose3": 3}[tr])]
            form = "list" if tr.startswith("list") else "plain" if tr == "plain" else "compose"
            L = [f"MNIST {d} {train}" + (f" {';'.join(f'{a},{b}' for a, b in steps)} {form}" if steps else "")]
            n = min(ni, nl)
            items = sorted({0, n - 1, n // 2}) if n else []
            L += [f"ITEM {i}" for i in items]
            b = rng.choice([1, 2, 3, 64])
            if n:
                L += [f"LD {b} 0 natural", "ALL 1"]
            jobs.append((f"m{c}", L))
            exp[f"m{c}"] = (n, hh, ww, px, lb, steps, items, b, L)
        res = run_driver(exe, jobs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    hs, metas = [], []
    for k, (n, hh, ww, px, lb, steps, items, b, L) in exp.items():
        st, obs = res[k]
        ev = events(obs)
        what = f"MNIST n={n} {hh}x{ww} transforms {steps}"
        if st != 0:
            ck.violation("L01:mnist", f"{what}: terminated abnormally ({st})", {"script": L})
            continue
        hist = []
        for e in ev:
            if e["e"] == "data":
                hist.append({"e": "data", "n": e["n"]})
            elif e["e"] in ("item", "take"):
                f = e["f"]
                # images are fractions of 255: as integers
                d = [fnum(x) * 255 for x in f[0]["d"]]
                hist.append({"e": e["e"], "i": e.get("i", 0), "no": e.get("no", 0), "ishape": f[0]["shape"], "img": [round(x) if abs(x - round(x)) < 2e-2 else 10 ** 8 for x in d],
                             "lshape": f[1]["shape"], "lab": f[1]["d"]})
        hs.append({"b": b, "h": hh, "w": ww, "px": px[:n], "lab": lb[:n], "steps": [{"m": a, "s": 2 ** c} for a, c in steps], "events": hist})
        metas.append((what, L))
    text = "\n".join(json.dumps(h) for h in hs) + "\n"
    r = run_tlc("MnistTrace", {}, ["Report"], spec="TSpec", files={"traces.ndjson": text}, heap="8g")
    ck.count(r)
    ok = {x["ok"] for x in r.records if "ok" in x}
    for i, (what, L) in enumerate(metas):
        ck.traces += 1
        if i + 1 not in ok:
            ck.violation("L01:mnist", f"{what}: what the data set returned is not what the files hold", {"script": L, "history": {k: v for k, v in hs[i].items() if len(str(v)) < 4000}})


def samplers(ck, exe, rng, dist, pid):
    """Histories of samplers (R = 1: RandomSampler / SequentialSampler; otherwise one DistributedSampler per rank)."""
    jobs, metas = [], {}
    th = ck.thorough
    if dist:
        cfgs = [(n, R) for n in list(range(0, 14)) + [16, 17, 31, 64, 100] for R in (1, 2, 3, 4, 5, 7, 8)] + [(97, 16), (33, 33), (5, 12), (250, 6), (1000, 3)]
    else:
        cfgs = [(n, 1) for n in (0, 1, 2, 3, 5, 8, 12, 13, 50, 257, 1000)] * 3
    c = 0
    for (n, R) in cfgs:
        for shuffle in (True, False):
            for drop in ((False, True) if dist else (False,)):
                for rep in range(2 if th else 1):
                    seed = rng.choice([0, 0, 1, 7, 42, 2 ** 31 - 2, 2 ** 32 - 1, 12345678901])
                    base = rng.choice([[0, 1, 2], [0, 1, 5], [3, 0, 9], [1, 2, 100]])
                    L, order = [], []
                    mk = lambda r: (f"SMP r{r} dist {n} {R} {r - 1} {int(shuffle)} {seed} {int(drop)}" if dist else
                                    (f"SMP r{r} rand {n} {seed}" if shuffle else f"SMP r{r} seq {n}"))
                    ep = {}
                    for r in range(1, R + 1):
                        L.append(mk(r))
                        ep[r] = 0
                        L.append(f"IDX r{r}")
                        order.append(("read", r, 0))
                    seq = [(r, e) for r in range(1, R + 1) for e in base] + [(rng.randrange(1, R + 1), rng.choice(base)) for _ in range(4)]
                    rng.shuffle(seq)
                    for r, e in seq[:40 if not th else 200]:
                        if rng.random() < .1:
                            L.append(mk(r))   # a restarted process makes its sampler anew
                            order.append(("set", r, 0))
                        L.append(f"EPOCH r{r} {e}")
                        order.append(("set", r, e))
                        for _ in range(rng.choice([1, 1, 2])):
                            L.append(f"IDX r{r}")
                            order.append(("read", r, e))
                    jobs.append((f"s{c}", L))
                    metas[f"s{c}"] = (n, R, shuffle, drop, seed, order, L)
                    c += 1
    res = run_driver(exe, jobs)
    hs, ms = [], []
    for k, (n, R, shuffle, drop, seed, order, L) in metas.items():
        st, obs = res[k]
        what = f"{'distributed ' if dist else ''}sampler n={n} ranks={R} shuffle={shuffle} drop={drop} seed={seed}"
        if st != 0:
            ck.violation(pid + ":sampler", f"{what}: terminated abnormally ({st})", {"script": L})
            continue
        it = iter(events(obs))
        ev = []
        for kind, r, e in order:
            if kind == "set":
                ev.append({"e": "set", "r": r, "ep": e})
            else:
                x = next(it)
                ev.append({"e": "read", "r": r, "ep": e, "list": x["list"], "size": x["size"]})
        hs.append({"n": n, "r": R, "shuffle": shuffle, "drop": drop, "events": ev})
        ms.append((what, L))
    text = "\n".join(json.dumps(h) for h in hs) + "\n"
    r = run_tlc("SamplersTrace", {"Sizes": set(), "Ranks": set(), "Epochs": set(), "MaxLog": 0}, ["Report"], spec="TSpec",
                files={"traces.ndjson": text}, heap="8g")
    ck.count(r)
    ok = {x["t"]: x["ok"] for x in r.records}
    for i, (what, L) in enumerate(ms):
        ck.traces += 1
        if not ok.get(i + 1):
            why = "the ranks' lists do not partition the data set (or the order does not follow the epoch)" if i + 1 in ok else "a list is not a function of the epoch, or its size is wrong"
            ck.violation(pid + ":sampler", f"{what}: {why}", {"script": L, "history": hs[i]})
        else:
            ck.sample({"case": what, "reads": len(hs[i]["events"])})


def run(ck):
    exe = B.build("rel", targets=("loaddrv",))["loaddrv"]
    rng = random.Random(ck.seed)
    th = ck.thorough
    # the design: all small configurations, all orders, all interleavings of two or three iterators
    for kw in (dict(Sizes={0, 1, 2, 3}, Batches={1, 2, 4}, MaxLog=6 if not th else 7), dict(Sizes={4, 5}, Batches={1, 2, 3, 4, 5, 6}, MaxLog=4 if not th else 5)):
        r = run_tlc("Loader", kw, ["ExactlyOnce", "FullBatches", "Sized"], spec="Spec")
        ck.count(r)
    # recorded histories
    cfg = []
    for n in list(range(0, 10)) + [12, 15, 16, 17, 31, 32, 33]:
        for b in (1, 2, 3, 4, 5, 7, 8, 16, 17, 40):
            if n > 10 and b < 3:
                continue
            for drop in (False, True):
                for kind in ("natural", "shuffle", "sequential", "random", "list"):
                    cfg.append((n, b, drop, kind))
    rng.shuffle(cfg)
    keep = cfg if th else cfg[:520]
    keep += [(n, b, d, k) for n, b in ((200, 7), (1000, 64), (500, 1), (513, 256), (7, 10 ** 12), (7, 2 ** 63 - 1), (5, 2 ** 64 - 1), (2048, 100)) for d in (False, True) for k in ("natural", "shuffle", "random")
             if th or (d + len(k)) % 2 == 0 or b > 10 ** 9]
    jobs, meta = [], {}
    for c, (n, b, drop, kind) in enumerate(keep):
        lst = None
        if kind == "list":
            m = rng.choice([0, 1, n, n, n + 3, 2 * n])
            lst = [rng.randrange(n) for _ in range(m)] if n else []
            if rng.random() < .3:
                lst = list(range(n))[::-1][: rng.randrange(0, n + 1)]
        L = script(rng, n, b, drop, kind, lst, rng.choice([0, 1, 42, 7777]))
        if n * 3 > 500:
            L = [l for l in L if not l.startswith(("TAKE", "PEEK", "BEGIN", "ALL 2"))]
        jobs.append((f"c{c}", L))
        meta[f"c{c}"] = (n, b, drop, kind, lst, L)
    res = run_driver(exe, jobs)
    hs, ms = [], []
    for k, (n, b, drop, kind, lst, L) in meta.items():
        st, obs = res[k]
        what = f"{n} samples, batches of {b}, drop_last={drop}, {kind} {lst if lst is not None and len(lst) < 12 else ''}"
        if st != 0:
            ck.violation("L01:huge-batch" if b > 10 ** 9 else "L01:loader", f"{what}: terminated abnormally ({st})", {"script": L, "observed": obs[-3:]})
            continue
        h, m = history(n, min(b, 10 ** 9), drop, kind, lst, obs)
        if m:
            ck.violation("L01:loader", f"{what}: {m}", {"script": L})
            continue
        h = with_begins(L, h)
        if b > 10 ** 9 and h["events"][1]["batch"] == b:
            h["events"][1]["batch"] = 10 ** 9   # TLC's integers are 32 bit; any batch larger than the data behaves alike
        hs.append(h)
        ms.append(("huge-batch" if b > 10 ** 9 else "loader", what, L))
    judge(ck, hs, ms, "loader")
    samplers(ck, exe, rng, False, "L01")
    mnist(ck, exe, rng)
    ck.assumptions += ["a loader takes its sampler's order when it is made", "data sets return the same sample for the same index every time", "MNIST files are well formed"]
