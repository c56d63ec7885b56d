"""Replays histories produced by Autograd.tla on the real library and judges every observation."""
from cases import *


def hist(rec, shapes, rg):
    """Script and expectations of one history.  An expectation is (tag, register, predicate data)."""
    L, E = [], []
    names = ["a", "b", "c"][:len(shapes)]
    leaves = [n for n, g in zip(names, rg) if g]
    vals = rec["init"]
    for n, g in zip(names, rg):
        L.append(f"T {n} f32 {1 if g else 0} {csv(vals[n]['s'])} {fcsv(vals[n]['d'])} 0")
    nu = 0

    def look(r, see):
        L.append(f"G {r}")
        E.append(("G", r, see))
        L.append(f"Q {r}")
        E.append(("Q", r, see))

    def grads(g):
        for l in leaves:
            L.append(f"GG {l}")
            E.append(("GG", l, g[l]))
    for st in rec["steps"]:
        k = st["k"]
        if k == "op":
            il = ";".join(csv(x) for x in st["il"]) or "-"
            L.append(("TH " if st["th"] else "") + f"O {st['op']} {st['out']} {','.join(st['ins'])} {il} {fcsv(st['fl'])}")
            look(st["out"], st["see"])
        elif k == "inplace":
            L.append(f"O {st['op']} - {','.join(st['ins'])} - -")
            look(st["out"], st["see"])
        elif k == "update":
            op = {"fill_": "fill_", "add_": "addS_", "mul_": "mulS_"}[st["op"]]
            L.append(f"O {op} - {st['out']} - {st['fl']}")
            look(st["out"], st["see"])
        elif k in ("N+", "N-", "TN+", "TN-"):
            L += [k, "NQ", "TH NQ"]
            E += [("NQ", None, 1 if st["d"] == 0 else 0), ("NQ", None, 1)]
        elif k == "drop":
            L.append(f"D {st['out']}")
        elif k == "backward":
            if st["dflt"]:
                L.append(f"B {st['out']}")
                L.append(f"T up f32 0 {csv(st['g']['s'])} {fcsv(st['g']['d'])} 0")
            else:
                L.append(f"T up f32 0 {csv(st['g']['s'])} {fcsv(st['g']['d'])} 0")
                L.append(f"B {st['out']} up")
            E.append(("HOOKS", st["fired"], st["grads"]))
            grads(st["grads"])
            L.append("G up")
            E.append(("UP", "up", st["g"]))
        elif k == "upfill":
            L.append("O fill_ - up - 9")
            grads(st["grads"])
        elif k == "zero":
            L.append(f"ZG {st['out']}")
            grads(st["grads"])
        elif k == "gradfill":
            L += [f"GR h {st['out']}", "O fill_ - h - 7", "D h"]
            grads(st["grads"])
        elif k == "setgrad":
            L += [f"T sg f32 0 {csv(st['t']['s'])} {fcsv(st['t']['d'])} 0", f"SG {st['out']} sg", "O fill_ - sg - 3", "D sg"]
            grads(st["grads"])
        elif k == "hook":
            L.append(f"HK {st['out']} {st['lab']}")
        elif k == "unhook":
            L.append(f"HU {st['out']} {st['lab']}")
        else:
            raise ModelError("step " + k)
    for r, see in sorted(rec["final"].items()):
        look(r, see)
    while L.count("TN+") > L.count("TN-"):
        L.append("TN-")
    return L, E


def judge_hist(E, st, obs):
    """(key, message) of the first departure from the specification, or None."""
    o = parse(obs)
    p = 0
    for tag, r, x in E:
        if tag == "HOOKS":
            hk = []
            while p < len(o) and o[p][0] == "HK":
                hk.append(o[p])
                p += 1
            want = {l: [str(v) for v in vs] for l, vs in r.items()}
            flat = {v: l for l, vs in want.items() for v in vs}
            got = {l: [] for l in want}
            for _, lab, g in hk:
                if lab not in flat:
                    return "hook", f"hook {lab} ran, specified {want}"
                got[flat[lab]].append(lab)
                if not same_tensor(x[flat[lab]]["t"], g, 1e-6):
                    return "hookarg", f"hook {lab} on leaf {flat[lab]} ran with {json.dumps(g)}, the complete gradient is {json.dumps(x[flat[lab]]['t'])}"
            if got != want:
                return "hook", f"hooks ran {got}, specified {want}"
            continue
        if p >= len(o):
            return "abort", f"terminated abnormally ({st}) before {tag} {r}"
        t, name, g = o[p]
        p += 1
        if tag == "G":
            if t != "G" or name != r or not same_tensor(x["t"], g, 1e-6):
                return "value", f"{r} is {json.dumps(g)[:300]}, specified {json.dumps(x['t'])}"
        elif tag == "UP":
            if not same_tensor(x, g, 0):
                return "upstream", f"the upstream gradient passed in became {json.dumps(g)[:300]}, was {json.dumps(x)}"
        elif tag == "Q":
            if bool(g["rg"]) != x["rg"]:
                return "flag", f"{r} requires gradient: {bool(g['rg'])}, specified {x['rg']}"
            if x["rg"] and bool(g["leaf"]) != x["leaf"]:
                return "leaf", f"{r} is a leaf: {bool(g['leaf'])}, specified {x['leaf']}"
        elif tag == "NQ":
            if str(name) != str(x):
                return "scope", f"recording enabled is {name}, specified {x}"
        elif tag == "GG":
            if g.get("u") == 1:
                if x["recv"]:
                    return "grad", f"leaf {r} has no gradient, specified {json.dumps(x['t'])}"
            elif g.get("u"):
                return "flag", f"leaf {r} does not require gradient any more"
            elif not x["def"]:
                return "grad", f"leaf {r} received {json.dumps(g)[:200]}, specified nothing"
            elif not same_tensor(x["t"], g, 1e-6):
                return "grad", f"gradient of leaf {r} is {json.dumps(g)[:300]}, specified {json.dumps(x['t'])}"
    if st != 0:
        return "abort", f"terminated abnormally ({st})"
    if p != len(o):
        return "hook", f"unexpected extra event {o[p]}"
    return None


def describe(rec):
    r = []
    for s in rec["steps"]:
        k = s["k"]
        r.append({"op": lambda: f"{s['out']}={s['op']}({','.join(s['ins'])}{s['il'] or ''}{s['fl'] or ''}){'@thread' if s['th'] else ''}", "inplace": lambda: f"{s['op']}({','.join(s['ins'])})",
                  "backward": lambda: f"backward({s['out']},{s['g']['d']})"}.get(k, lambda: k + (" " + str(s.get("out", "")) if s.get("out") else "") + (f" #{s['lab']}" if "lab" in s else ""))())
    return " ; ".join(r)


def replay(ck, exe, hists, keep=None):
    """hists: list of (record, shapes, rg).  keep: the kinds of departure this property is about (None: all)."""
    jobs, meta = [], {}
    for i, (rec, shapes, rg) in enumerate(hists):
        L, E = hist(rec, shapes, rg)
        jobs.append((str(i), L))
        meta[str(i)] = (rec, E)
    res = run_driver(exe, jobs)
    for cid, L in jobs:
        rec, E = meta[cid]
        st, obs = res[cid]
        ck.traces += 1
        m = judge_hist(E, st, obs)
        if m:
            last = [s["op"] for s in rec["steps"] if s["k"] == "op"]
            ck.violation(f"{ck.pid}:{m[0]}", f"leaves {json.dumps({k: v['d'] for k, v in rec['init'].items()})} history {describe(rec)}: {m[1]}", {"history": rec, "script": L, "observed": obs, "status": str(st)})
        else:
            ck.sample({"history": describe(rec)})


def programs(ck, shapes, rg, ops, plan=(), steps=0, regs=4, feats=(), sim=None, seed=0, depth=None):
    """A run of TLC giving histories of one configuration of the machine, exhaustive or sampled (sim = number per worker); see gather."""
    c = {"LeafShapes": tuple(shapes), "LeafRG": tuple(rg), "OpSet": set(ops), "Steps": steps, "Plan": tuple(plan), "MaxRegs": regs, "Feats": set(feats), "Sampled": bool(sim)}
    kw = dict(mode="sim", num=sim, depth=depth or (steps + len(plan) + 4), seed=ck.seed + seed) if sim else {}

    def go():
        t0 = time.time()
        r = run_tlc("Autograd", c, ["TypeOK", "NoDepNoJ", "Emit"], workers=2, heap="4g", **kw)
        if os.environ.get('VT_TIME'): print(plan or steps, 'sim' if sim else '', len(r.records), r.generated, round(time.time() - t0, 1), flush=True)
        return r, shapes, rg, bool(sim)
    return go


def gather(ck, runs):
    H, seen, n = [], set(), [0, 0]
    for r, shapes, rg, sim in together(runs, 5):
        ck.count(r)
        for x in r.records:
            k = json.dumps([x, shapes, rg]) if sim else None
            if k is None or k not in seen:
                seen.add(k)
                n[sim] += 1
                H.append((x, shapes, rg))
    ck.sets.update(programs_exhaustive=n[0], programs_random=n[1])
    return H

