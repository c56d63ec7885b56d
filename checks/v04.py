from cases import *
from terms import evrec
from v03 import TOL, FLT, shapes, shset


def run(ck):
    exe = B.build("rel")["ttdrv"]
    inv = ["TypeOK", "SumLaw", "SizeLaw", "OrderLaw", "Emit"]
    allf = {"arith1", "arithN", "all", "order1"}
    plans = [(shapes((0, 1, 2), (1, 2, 3), 9), allf, 13, 2), (shapes((3,), (1, 2, 3), 18), allf, 13, 3), (shapes((4,), (1, 2, 3), 12)[::2], {"arith1", "order1", "all"}, 13, 2),
             (shapes((4,), (1, 2), 16), {"arithN"}, 13, 4 if ck.thorough else 3), ([[2, 1, 2, 1, 3], [1, 2, 2, 1, 2, 2]], {"arith1", "arithN", "order1"}, 9, 2),
             ([[1100], [3, 400], [400, 3], [5, 17, 13]], {"arith1", "all", "order1"} | ({"arithN"}), 9, 2)]
    if ck.thorough:
        plans += [(shapes((4,), (1, 2, 3), 36), {"arith1", "order1", "all"}, 13, 2), (shapes((2, 3), (4, 5, 7), 120), allf, 13, 3),
                  (shapes((5,), (1, 2), 16), {"arith1", "arithN"}, 9, 3)]
    recs = []
    for sh, fams, mod, md in plans:
        r = run_tlc("ReduceCases", {"Sh": shset(sh), "Fams": fams, "Mod": mod, "MaxDims": md}, inv)
        ck.count(r)
        recs += r.records
    ck.sets["calls_specified"] = len(recs)
    runs = []
    for i, c in enumerate(recs):
        h = i + ck.seed
        cc = evrec(c)
        cc["boolmap"] = False
        if c["op"].startswith(("min", "max", "argm")):
            for f in ("ins", "exp"):
                cc[f] = [{"s": t["s"], "d": [float("inf") if x == 1000000 else float("-inf") if x == -1000000 else x for x in t["d"]]} for t in cc[f]]
        big = any(len(t["d"]) > 300 for t in cc["ins"])
        dts = FLT if ck.thorough and not big else ["f32"] + ([FLT[1 + h % 2]] if h % 3 == 0 and not big else [])
        for k, dt in enumerate(dts):
            x = dict(cc)
            x["tol"] = 0 if c["cls"] == "exact" else TOL[dt] * (1 if dt == "f32" else 2)
            for lay in ((0, 2) if k == 0 and (ck.thorough or h % 2) else ([0, 3, 2, 1][h % 4],)):
                runs.append((x, dt, lay))
    run_list(ck, exe, runs, "V04")
    ck.assumptions += ["an index among ties may be any of the tied positions", "var/mean compared within rounding of the element type"]
