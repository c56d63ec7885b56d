from cases import *

FT = {"f32": 1e-6, "f16": 2e-3, "bf16": 1.6e-2}


def build_lines(log, variant):
    """Lines that create the tree; variant: 0 one by one, 1 emplaceBack/registerModules, 2 children first (initializer lists)."""
    adds = [e for e in log if e["k"] == "add"]
    if variant < 2:
        return None
    kids = {}
    for e in adds[1:]:
        kids.setdefault(e["par"], []).append(e)
    L = []
    for e in reversed(adds):
        ks = kids.get(e["n"], [])
        if e["kind"] in ("list", "seq"):
            L.append(f"MI {e['n']} {e['kind']} " + (csv([x["n"] for x in ks]) if ks else "-"))
        else:
            L.append(f"MN {e['n']} {e['kind']} 0")
            L += [f"MA {e['n']} {x['nm']} {x['n']}" for x in ks]
    return L


def script_of(rec, variant):
    log = rec["log"]
    L, E = [], []
    acts = [i for i, e in enumerate(log) if e["k"] != "add"]
    early = all(e["k"] != "add" for e in log[acts[0]:]) if acts else True
    if variant == 2 and not early:
        variant = 1
    pre = build_lines(log, variant)
    if pre:
        L += pre
    for e in log:
        k, n = e["k"], e["n"]
        if k == "add":
            if not pre:
                L.append(f"MN {n} {e['kind']} {e['par']} {e['nm'] or '-'}" + (" " + ("batch" if n % 2 else "emplace") if variant == 1 else ""))
        elif k == "train":
            L.append(f"MT {n} {e['v']}")
        elif k == "reset":
            L.append(f"MR {n}" + (" init" if variant else ""))
        elif k == "zero":
            L.append(f"MZ {n}")
        elif k == "to":
            L.append(f"MTO {n} {e['dt']}" + (" dev" if variant else ""))
        elif k == "fill":
            L.append(f"MFILL {n} {e['v']}")
        elif k == "grads":
            L.append(f"MGRAD {n} {e['v']}")
        elif k == "freeze":
            L.append(f"MFRZ {n} {e['nm']}")
        elif k == "forward":
            L += [f"T x f32 0 2 {csv(e['x'])} 0", f"MF {n} y x", "G y"]
            E.append(e)
    L += ["MS 1", "MQ", "MS 1 pre."]
    return L, E


def table(hd=4, ctx=3, theta=100.0):
    d = []
    for p in range(ctx):
        for i in range(hd):
            a = p * theta ** (-(2 * (i % (hd // 2))) / hd)
            d += [math.cos(a), math.sin(a)]
    return d


def tensor_ok(t, own, o, g):
    """None or what is wrong with the tensor: t its specified state, own its kind."""
    d = o.get("d")
    if o.get("u"):
        return "is undefined"
    if o["s"] != list(own["s"]):
        return f"has shape {o['s']}, specified {own['s']}"
    if o["t"] != t["dt"]:
        return f"has element type {o['t']}, specified {t['dt']}"
    if bool(o["rg"]) != t["rg"]:
        return f"requires gradient: {bool(o['rg'])}, specified {t['rg']}"
    v, tol = t["val"], FT[t["dt"]]
    d = [fnum(x) for x in d]
    const = {"one": 1, "zero": 0, "five": 5, "six": 6, "fill": t["v"]}
    if v in const and any(x != const[v] for x in d):
        return f"is {d[:6]}, specified {const[v]} throughout"
    if v.startswith("uniform"):
        r = 1 / math.sqrt(float(v[7:]))
        if any(abs(x) > r * (1 + 8e-3) for x in d) or (len(d) > 2 and len(set(d)) == 1):
            return f"is {d[:6]}, specified random values within {r}"
    if v == "normal" and (len(set(d)) == 1 or any(abs(x) > 8 for x in d)):
        return f"is {d[:6]}, specified normal random values"
    if v == "table" and any(abs(a - b) > 2e-2 for a, b in zip(d, table())):
        return f"is {d[:6]}, specified the rotary table"
    if t["rg"]:
        gd = None if g.get("u") else [fnum(x) for x in g["d"]]
        if t["g"] == "none" and gd is not None and any(gd):
            return f"has gradient {gd[:4]}, specified none"
        if t["g"] == "zero" and gd is not None and any(gd):
            return f"has gradient {gd[:4]}, specified zero"
        if t["g"] == "fill" and (gd is None or any(x != t["gv"] for x in gd)):
            return f"has gradient {gd}, specified {t['gv']}"
    return None


OWN = {}


def judge_tree(rec, E, st, obs):
    if st != 0:
        return "abort", f"terminated abnormally ({st})"
    o = parse(obs)
    for i, e in enumerate(E):
        if [fnum(x) for x in o[i][2]["d"]] != e["y"]:
            return "forward", f"forward({e['x']}) of node {e['n']} is {o[i][2]['d']}, specified {e['y']}"
    o = o[len(E):]
    see = rec["see"]
    for rnd, prefix in ((0, ""), (1, "pre.")):
        ms, mp, mu = [x[2] for x in (o[0:3] if rnd == 0 else o[4:7])]
        want = [prefix + x["path"] for x in see["states"]]
        if [x[0] for x in ms] != want:
            return "states", f"states are listed as {[x[0] for x in ms]}, specified {want}"
        wantp = [prefix + x["path"] for x in see["states"] if x["par"]]
        if [x[0] for x in mp] != wantp:
            return "parameters", f"parameters are listed as {[x[0] for x in mp]}, specified {wantp}"
        if mu != [1, 1, 1]:
            return "listing", "the unnamed lists differ from the named ones, repeat a tensor, or are not the modules' own tensors"
        for x, (path, ob, g) in zip(see["states"], ms):
            t = see["ten"][x["n"] - 1][x["i"] - 1]
            m = tensor_ok(t, rec["own"][see["kinds"][x["n"] - 1]][x["i"] - 1], ob, g)
            if m:
                return "tensor", f"{path} {m}"
    mq = o[3][2]
    got = [bool(mq[str(i + 1)]) for i in range(len(see["mode"]))]
    if got != see["mode"]:
        return "mode", f"training flags are {got}, specified {see['mode']}"
    return None


def own_table():
    u = lambda n, s, par: {"n": n, "s": s, "par": par}
    return {"linear": [u("weight", [2, 2], 1), u("bias", [2], 1)], "linnb": [u("weight", [2, 2], 1)], "conv": [u("weight", [3, 2, 2, 1], 1), u("bias", [3], 1)],
            "convnb": [u("weight", [1, 2, 2, 2], 1)], "lnorm": [u("weight", [3], 1), u("bias", [3], 1)], "lnormnb": [u("weight", [3], 1)], "rms": [u("weight", [4], 1)],
            "emb": [u("weight", [5, 3], 1)], "rope": [u("rope", [3, 4, 2], 0)], "block": [u("scale", [2], 1), u("mean", [1, 2], 0)]}


def run(ck):
    exe = B.build("rel")["ttdrv"]
    th = ck.thorough
    recs = []
    leaf = {"linear", "linnb", "conv", "convnb", "lnorm", "lnormnb", "rms", "emb", "rope", "relu", "drop", "flat"}
    cont = {"block", "plain", "list", "seq"}
    every = {"train", "reset", "zero", "to", "fill", "grads", "freeze"}

    def go(roots, kinds, nodes, acts, n, macts, sim=None, seed=0, dts=("f16", "bf16", "f32")):
        kw = dict(mode="sim", num=sim, depth=n + 2, seed=ck.seed + seed) if sim else {}
        r = run_tlc("ModuleTree", {"RootKinds": set(roots), "Kinds": set(kinds), "MaxNodes": nodes, "Acts": set(acts), "FillVals": {2, 3} if "forward" in acts else {47}, "Dtypes": set(dts), "MaxLog": n, "MaxActs": macts},
                    ["EachOnce", "Emit"], **kw)
        ck.count(r)
        for x in r.records:
            x["own"] = own_table()
            recs.append(x)
    # every tree of up to four modules over a few kinds, then every request on small trees, then long random histories
    go(cont, {"linear", "block", "list", "seq", "rope"}, 4, (), 4, 0)
    go(leaf | cont, leaf, 1, every, 3, 2)
    go({"seq", "block"}, {"linear", "block", "rope"}, 2, every, 4, 2)
    go({"seq"}, {"linear", "relu", "plain", "seq", "drop"}, 3, {"fill", "train", "forward"}, 5, 2)
    k = 250 if th else 25
    go(cont, leaf | cont, 7, every, 14, 8, sim=k, seed=1)
    go(cont, leaf | cont, 9, every, 20, 12, sim=k, seed=2)
    go({"seq", "plain"}, {"linear", "linnb", "relu", "flat", "plain", "seq", "block", "drop"}, 8, {"fill", "train", "forward", "grads"}, 16, 9, sim=k * 2, seed=3)
    jobs, meta = [], []
    for i, x in enumerate(recs):
        L, E = script_of(x, (i + ck.seed) % 3)
        jobs.append((str(i), L))
        meta.append(E)
    res = run_driver(exe, jobs)
    for i, x in enumerate(recs):
        st, obs = res[str(i)]
        ck.traces += 1
        m = judge_tree(x, meta[i], st, obs)
        hist = [(e["k"], e["n"], e["kind"] or e["dt"] or e["v"], e["par"]) for e in x["log"]]
        if m:
            last = x["log"][-1]["k"]
            ck.violation(f"N03:{m[0]}", f"history {hist}: {m[1]}", {"history": x["log"], "script": jobs[i][1], "observed": obs[:20], "status": str(st)})
        else:
            ck.sample({"history": hist})
    ck.sets["trees_and_histories"] = len(recs)
    ck.assumptions += ["a module is registered under one parent only", "gradients after a type conversion are unspecified until set again", "a user module overriding resetParameters calls the base version"]
