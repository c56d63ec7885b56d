"""Runs the families of NNCases.tla."""
from cases import *
from terms import evrec
from v03 import shapes, shset

TOLS = {"f32": 2e-5, "f16": 1e-2, "bf16": 8e-2}
INV = ["TypeOK", "PoolLaw", "LinearLaw", "MseLaw", "Emit"]


def cfgs(l):
    return Raw("{" + ", ".join(tla(x) for x in l) + "}")


def plan(fams, shp=([],), shp2=([],), cf=((),), seed=0):
    return {"Shapes": shset(list(shp)), "Shapes2": shset(list(shp2)), "Fams": set(fams), "Configs": cfgs(list(cf)), "Seed": seed}


def specify(ck, plans):
    recs = []
    def one(p):
        t0 = time.time()
        r = run_tlc("NNCases", p, INV, workers=2, heap="4g")
        if os.environ.get("VT_TIME"):
            print(p["Fams"], len(r.records), round(time.time() - t0, 1), flush=True)
        return r
    for p, r in zip(plans, together([lambda p=p: one(p) for p in plans], 5)):
        ck.count(r)
        for c in r.records:
            c = evrec(c)
            c["fam"] = sorted(p["Fams"])[0]
            recs.append(c)
    ck.sets["calls_specified"] = ck.sets.get("calls_specified", 0) + len(recs)
    return recs


def mag(c):
    """How far rounding in a short format can carry: the size of the intermediate sums relative to the result."""
    return max([1.0] + [abs(x) for t in c["ins"] for x in t["d"] if isinstance(x, (int, float))])


ULP = {"f16": 2.0 ** -11, "bf16": 2.0 ** -8}


def summed(c):
    """How many terms a sum in the call may have; each may round once."""
    if "Loss" not in c["op"]:
        return max([len(t["d"]) for t in c["ins"]] + [1])
    n = 1
    r = max(len(t["s"]) for t in c["ins"])
    for i in range(1, r + 1):
        n *= max([t["s"][-i] for t in c["ins"] if len(t["s"]) >= i])
    return n


def perform(ck, exe, recs, label, half=True, tol32=2e-5, extra=None):
    runs = []
    for i, c in enumerate(recs):
        h = i + ck.seed
        small = max([len(t["d"]) for t in c["ins"]] + [0]) <= 400
        vs = [("f32", 0)] + ([("f32", (2, 3, 1)[h % 3])] if small or ck.thorough else [])
        ex = c["op"] in ("mMaxPool2d", "maxPool2d", "embedding", "mEmbedding", "mMaxPool2dDef", "mFlatten")
        if half and c["ins"] and (ck.thorough or h % 4 == 0):
            if ex and mag(c) <= 256 or (not ex and mag(c) <= 12 and c["op"] not in ("conv2d", "mConv2d", "linear", "mLinear")):
                vs.append((("f16", "bf16")[h // 4 % 2] if not ex or mag(c) <= 128 else "f16", 0))
            elif c["op"] in ("conv2d", "mConv2d", "linear", "mLinear") and max(abs(x) for x in c["exp"][0]["d"] + [0]) <= 200:
                vs.append((("f16", "bf16")[h // 4 % 2], 0))
        for dt, lay in vs:
            c2 = dict(c, tol=tol32 if dt == "f32" else TOLS[dt] + summed(c) * ULP[dt])
            if ex and not any(isinstance(x, float) for x in c["exp"][0]["d"]):
                c2["tol"] = 0
            runs.append((c2, dt, lay))
    run_list(ck, exe, runs, label)
