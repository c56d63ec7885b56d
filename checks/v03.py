from cases import *
from terms import evrec

TOL = {"f32": 1e-5, "f16": 6e-3, "bf16": 5e-2}
FLT = ["f32", "f16", "bf16"]


def shapes(ranks, exts, mx):
    import itertools
    r = []
    for k in ranks:
        for s in itertools.product(exts, repeat=k):
            n = 1
            for x in s:
                n *= x
            if n <= mx:
                r.append(list(s))
    return r


def shset(l):
    return Raw("{" + ", ".join(tla(s) for s in l) + "}")


def run(ck):
    exe = B.build("rel")["ttdrv"]
    inv = ["TypeOK", "BroadcastLaw", "Commutes", "Emit"]
    s2 = shapes((0, 1, 2), (1, 2, 3), 9)
    s3 = shapes((3,), (1, 2), 8)
    z = shapes((1, 2), (0, 1, 2), 4)
    plans = [(s2, s2, {"binary", "unary", "refuse"}), (shapes((0, 1, 2), (1, 2), 4), shapes((0, 1, 2), (1, 2), 4), {"ternary"}),
             (s3, shapes((0, 1, 2, 3), (1, 2), 8), {"binary", "unary"} if ck.thorough else {"binary"}), (z, z, {"binary"})]
    plans.append((s3[::2], s3[1::2] + [[2]], {"ternary"}))
    plans += [([[1030], [33, 17], [3, 5, 1, 7]], [[1], [], [17], [33, 1], [1030], [5, 2, 7], [33, 17]], {"binary", "unary"}),
              ([[2, 1, 2, 1, 2], [1, 2, 2, 1, 2, 2]], [[2, 1], [1, 2, 1, 2, 1], [2, 1, 2, 2, 1, 1]], {"binary"})]
    if ck.thorough:
        plans += [(shapes((3,), (1, 2, 3), 12), shapes((1, 2, 3), (1, 2, 3), 9), {"binary", "refuse"}),
                  (shapes((4,), (1, 2), 8), shapes((1, 2, 3, 4), (1, 2), 8), {"binary"}),
                  (shapes((1, 2, 3), (4, 5, 7), 80), [[]], {"unary"}),
                  (shapes((2, 3), (1, 2), 8), shapes((1, 2, 3), (1, 2), 8), {"ternary"})]
    recs = []
    for sa, sb, fams in plans:
        r = run_tlc("ElementwiseCases", {"ShA": shset(sa), "ShB": shset(sb), "Fams": fams, "UnaryMod": 33}, inv)
        ck.count(r)
        recs += r.records
    rej = [c for c in recs if c["kind"] == "reject"]
    recs = [c for c in recs if c["kind"] != "reject"]
    ck.sets["calls_specified"] = len(recs)
    ck.sets["refusals_specified"] = len(rej)
    runs = []
    for i, c in enumerate(recs):
        h = i + ck.seed
        cls = c["cls"]
        full = ck.thorough
        if cls == "bool":
            dts = ["b"]
        elif cls in ("cmp", "order"):
            dts = FLT + ["i64"] if full else ["f32", ["i64", "f16", "i64", "bf16"][h % 4]]
            if cls == "cmp" and c["op"].endswith("S"):
                dts = [d for d in dts if d in FLT]
        elif cls == "any":
            dts = ["f32", "i64"]
        else:
            dts = FLT if full else ["f32"] + ([FLT[1 + h % 2]] if h % 3 == 0 else [])
        for k, dt in enumerate(dts):
            cc = evrec(c)
            cc["tol"] = 0 if cls in ("cmp", "order", "bool", "exact", "any", "sign") else TOL[dt]
            cc["odt"] = ["b"] if cls == "cmp" else ["v"]
            if cc["op"].endswith("Out") and cls == "cmp":
                cc["predt"] = "b"
            for lay in ((0, 2, 3, 1) if full and dt == "f32" else (0, 2) if k == 0 else ([0, 3, 2][h % 3],)):
                runs.append((cc, dt, lay))
    run_list(ck, exe, runs, "V03")
    # refusals: the library must not answer with a value
    jobs, meta = [], {}
    for i, c in enumerate(rej):
        c = evrec(c)
        c["kind"] = "inplace" if c["op"].endswith(("_", "I")) else "t"
        c["exp"] = [{}]
        L = [l for l in script(c, "b" if c["cls"] == "bool" else "f32", 0)]
        jobs.append((f"r{i}", L))
        meta[f"r{i}"] = c
    res = run_driver(exe, jobs)
    for cid, L in jobs:
        st, obs = res[cid]
        c = meta[cid]
        ck.traces += 1
        if st == 0:
            o = parse(obs)
            got = o[0][2]
            if c["kind"] == "t" and got.get("u"):
                continue
            if c["kind"] == "inplace" and same_tensor(c["ins"][0], got):
                continue
            ck.violation("V03:reject:" + c["op"], f"{c['op']} silently combined incompatible shapes {[t['s'] for t in c['ins']]}: {json.dumps(got)[:200]}",
                         {"case": c, "script": L, "observed": obs})
        elif st not in ("sig 5", "sig 6", "sig 4"):
            ck.violation("V03:reject:" + c["op"], f"{c['op']} on incompatible shapes {[t['s'] for t in c['ins']]} ended with {st} instead of an assertion", {"case": c, "script": L})
