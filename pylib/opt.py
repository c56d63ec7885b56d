"""Replays the histories of Optimizer.tla and evaluates their equations."""
from cases import *
from terms import ev
import terms

ORDERS = {"SGD": (("mom", "damp", "wd"), "nest"), "Adagrad": (("lrd", "wd", "acc", "eps"), None), "RMSprop": (("alpha", "eps", "wd", "mom"), "cent"),
          "AdaDelta": (("rho", "eps", "wd"), None), "Adam": (("b1", "b2", "eps", "wd"), "ams"), "AdamW": (("b1", "b2", "eps", "wd"), "ams")}


def rat(x):
    from fractions import Fraction
    f = Fraction(x).limit_denominator(10 ** 6)
    return ("div", f.numerator, f.denominator)


def histories(ck, algo, hs, params, shapes, lrs, acts, n, quiet=2, sim=None, seed=0):
    enc = [{**{k: (v if k in ("nest", "cent", "ams") else rat(v)) for k, v in h.items()}, "id": i} for i, h in enumerate(hs)]
    consts = {"Algo": algo, "Hs": Raw("{" + ", ".join(tla(x) for x in enc) + "}"), "Params": set(params),
              "Shapes": dict(zip(params, [tuple(s) for s in shapes])), "Lrs": Raw("{" + ", ".join(tla(rat(x)) for x in lrs) + "}"), "Acts": set(acts), "MaxLog": n, "MaxQuiet": quiet, "Seed": ck.seed + seed}
    kw = dict(mode="sim", num=sim, depth=n + 2, seed=ck.seed + seed) if sim else {}
    r = run_tlc("Optimizer", consts, ["Emit"] if sim else ["DefinedOnce", "Emit"], spec="Spec", properties=() if sim else ("StepOwns", "UserOwns"), **kw)
    ck.count(r)
    return [(x, algo, hs[x["h"]["id"]], dict(zip(params, shapes))) for x in r.records]


def evalv(t, env, i):
    return ev(t, {k: v[i] for k, v in env.items()}) if not (isinstance(t, list) and t and t[0] == "vec") else ev(t[1][i])


def ev_el(t, env, i):
    """Element i of the tensor a term stands for."""
    if isinstance(t, str):
        return env[t][i]
    if isinstance(t, list):
        if t[0] == "vec":
            return ev(t[1][i])
        return terms.F[t[0]](*[ev_el(x, env, i) for x in t[1:]])
    return t


def script_of(rec, algo, h, shapes):
    fo, io = ORDERS[algo]
    L = []
    for p in rec["order"]:
        iv = rec["init"]["p"][p]
        L.append(f"T {p} f32 1 {csv(iv['s'])} {fcsv([ev(x) for x in iv['d']])} 0")
    L.append(f"OPT {algo} {','.join(rec['order'])} {h[io] if io else 0} {fcsv([ev(rec['lr'])] + [float(h[k]) for k in fo])}")
    for e in rec["log"]:
        k, p = e["k"], e["p"]
        g = lambda n: f"T {n} f32 0 {csv(e['t']['s'])} {fcsv([ev(x) for x in e['t']['d']])} 0"
        if k == "step":
            L += ["STEP", "NQ"]
        elif k == "setgrad":
            L += [g("sg"), f"SG {p} sg", "D sg"]
        elif k == "backward":
            L += [g("w_"), f"O mul y_ {p},w_", "O sum s_ y_", "B s_", "D y_", "D s_", "D w_"]
        elif k == "ungrad":
            L += [f"SG {p} none"]
        elif k == "zero":
            L.append(f"ZG {p}")
        elif k == "ozg":
            L.append("OZG")
        elif k == "gradfill":
            L += [f"GR h {p}", "O fill_ - h - 7", "D h"]
        elif k == "lr":
            L.append(f"LR {fmt(ev(e['lr']))}")
        elif k == "freeze":
            L.append(f"RG {p} 0")
        elif k == "poke":
            L += ["N+", f"O fill_ - {p} - -1.25", "N-"]
        else:
            raise ModelError(k)
        L.append("LRQ")
        for q in rec["order"]:
            L += [f"G {q}", f"Q {q}", f"GG {q}"]
    return L


def judge_opt(rec, shapes, st, obs, tol=3e-5):
    """(kind, message) or None; kind: value | lr | grad | untouched | flag | abort."""
    env, n = {}, {}
    for p in rec["order"]:
        iv = rec["init"]["p"][p]
        n[p] = len(iv["d"])
        env[f"p.{p}.0"] = [ev(x) for x in iv["d"]]
        for k, x in rec["init"]["s"].items():
            env[f"{k}.{p}.0"] = [ev(x)] * n[p]
    o = iter(parse(obs))
    prev = {}
    for i, e in enumerate(rec["log"]):
        for q in e["eqs"]:
            p = q["l"].split(".")[1]
            env[q["l"]] = [ev_el(q["r"], env, j) for j in range(n[p])]
        where = f"after action {i + 1} ({e['k']} {e['p']})"
        try:
            if e["k"] == "step":
                if str(next(o)[1]) != "1":
                    return "flag", f"{where} gradient recording is left disabled"
            lr = float(next(o)[1])
            if abs(lr - ev(e["lr"])) > 1e-6 * max(1, abs(ev(e["lr"]))):
                return "lr", f"{where} the learning rate is {lr}, specified {ev(e['lr'])}"
            for p in rec["order"]:
                see = e["see"][p]
                g, qq, gg = next(o)[2], next(o)[2], next(o)[2]
                want = {"s": list(shapes[p]), "d": env[see["v"]]}
                if not same_tensor(want, g, tol):
                    kind = "untouched" if see["g"] == "none" and see["v"] == prev.get(p) else "value"
                    return kind, f"{where} parameter {p} is {g.get('d')}, specified {want['d']}"
                prev[p] = see["v"]
                if p in e["frozen"]:
                    if qq["rg"]:
                        return "flag", f"{where} frozen parameter {p} requires gradient"
                    continue
                if not qq["rg"] or not qq["leaf"]:
                    return "flag", f"{where} parameter {p} is no longer a leaf requiring gradient"
                if see["g"] == "none":
                    if not gg.get("u"):
                        if any(fnum(x) != 0 for x in gg["d"]):
                            return "grad", f"{where} parameter {p} has gradient {gg.get('d')}, specified none"
                elif gg.get("u") or not same_tensor({"s": list(shapes[p]), "d": env[see["g"]]}, gg, 1e-5):
                    return "grad", f"{where} the gradient of {p} is {gg.get('d')}, specified {env[see['g']]}"
        except StopIteration:
            return "abort", f"terminated abnormally ({st}) {where}"
    return None if st == 0 else ("abort", f"terminated abnormally ({st})")


def replay_opt(ck, exe, hs, keep=None):
    jobs = [(str(i), script_of(*h)) for i, h in enumerate(hs)]
    res = run_driver(exe, jobs)
    for i, (rec, algo, h, shapes) in enumerate(hs):
        st, obs = res[str(i)]
        ck.traces += 1
        m = judge_opt(rec, shapes, st, obs)
        acts = " ".join(e["k"] + (":" + e["p"] if e["p"] else "") for e in rec["log"])
        if m and (keep is None or m[0] in keep):
            ck.violation(f"{ck.pid}:{algo}:{m[0]}", f"{algo} {h} lr={ev(rec['lr'])} history [{acts}]: {m[1]}", {"history": rec, "script": jobs[i][1], "observed": obs, "status": str(st)})
        else:
            ck.sample({"optimizer": algo, "hyper": h, "history": acts})
