from cases import *
from v03 import FLT, shapes, shset


def mkns(l):
    return Raw("{" + ", ".join(tla(list(x)) for x in l) + "}")


def run(ck):
    exe = B.build("rel")["ttdrv"]
    inv = ["TypeOK", "ShapeLaw", "TransposeLaw", "LinearLaw", "Emit"]
    V = [[-1]]
    b1 = V + shapes((0, 1, 2), (1, 2, 3), 6)
    small = [(2, 3, 4), (1, 2, 1), (3, 1, 2)]
    import itertools
    cube = list(itertools.product((1, 2, 3), repeat=3))
    plans = [(b1, b1, small, {"prod", "refuse"}, 7),
             (V + [[], [2]], V + [[], [2], [1]], cube, {"prod", "dot"}, 9),
             (shapes((3,), (1, 2), 8), V + shapes((0, 1, 2, 3), (1, 2), 8), [(2, 3, 2)], {"prod"}, 7),
             (V + shapes((0, 1, 2), (1, 2), 4), shapes((3,), (1, 2), 8), [(2, 2, 3)], {"prod"}, 7),
             (V + [[], [2], [3, 1]], V + [[], [1], [3, 2]], [(17, 33, 9), (5, 64, 7), (40, 3, 31)], {"prod", "dot"}, 3),
             ([[], [2]], [[], [0, 2], [2]], [(0, 2, 3), (2, 3, 0), (2, 0, 3)], {"prod"}, 7)]
    if ck.thorough:
        plans += [(b1, b1, cube, {"prod"}, 7), (V + shapes((3, 4), (1, 2, 3), 12), V + shapes((0, 1, 2, 3), (1, 2, 3), 12), [(2, 3, 2)], {"prod"}, 7),
                  (V + [[], [2]], V + [[], [2], [2, 1]], [(65, 20, 33), (1, 130, 50), (90, 7, 1)], {"prod", "dot"}, 3)]
    recs = []
    for a, b, mkn, fams, mod in plans:
        r = run_tlc("MatmulCases", {"BatchA": shset(a), "BatchB": shset(b), "MKN": mkns(mkn), "Fams": fams, "Mod": mod}, inv)
        ck.count(r)
        recs += r.records
    rej = [c for c in recs if c["kind"] == "reject"]
    recs = [c for c in recs if c["kind"] != "reject"]
    ck.sets["calls_specified"] = len(recs)
    ck.sets["refusals_specified"] = len(rej)
    runs = []
    for i, c in enumerate(recs):
        h = i + ck.seed
        big = any(len(t["d"]) > 300 for t in c["ins"])
        dts = FLT if ck.thorough else ["f32"] + ([FLT[1 + h // 2 % 2]] if h % 2 == 0 else [])
        if c["op"] == "matmul":
            for k, dt in enumerate(dts):
                for lay in ((0, 2, 3) if ck.thorough and k == 0 else (0, 2) if k == 0 and not big else ([0, 3, 2, 1][h % 4],)):
                    runs.append((c, dt, lay))
        else:
            runs += [(c, dt, l) for dt in FLT for l in (0, 2)]
    run_list(ck, exe, runs, "V06")
    jobs, meta = [], {}
    for i, c in enumerate(rej):
        c = dict(c, kind="t", exp=[{}])
        L = script(c, FLT[i % 3], 0)
        jobs.append((f"r{i}", L))
        meta[f"r{i}"] = c
    res = run_driver(exe, jobs)
    for cid, L in jobs:
        st, obs = res[cid]
        c = meta[cid]
        ck.traces += 1
        if st == 0 and not parse(obs)[0][2].get("u") or st not in (0, "sig 5", "sig 6", "sig 4"):
            ck.violation("V06:reject", f"matmul of shapes {[t['s'] for t in c['ins']]} is undefined but ended {st} {obs[:1]}", {"case": c, "script": L, "observed": obs})
