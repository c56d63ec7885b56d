from cases import *

FAMS = ["shape", "perm", "slice", "join", "gather", "index", "range", "fill"]
DTS = ["f16", "i32", "i64", "bf16", "b"]


def run(ck):
    exe = B.build("rel")["ttdrv"]
    recs = []
    inv = ["TypeOK", "RearrangeLaw", "SelfInverse", "SplitJoin", "Emit"]
    if ck.thorough:
        plans = [({0, 1, 2, 3}, {1, 2, 3}, 12), ({4}, {1, 2, 3}, 12), ({1, 2, 3}, {0, 2}, 0), ({2, 3}, {1, 4, 5}, 20)]
    else:
        plans = [({0, 1, 2}, {1, 2, 3}, 9), ({3}, {1, 2, 3}, 6), ({4}, {1, 2}, 2), ({1, 2, 3}, {0, 2}, 0)]
    plans = [p + (set(FAMS),) for p in plans]
    # ranks beyond the small-vector inline capacity, and tensors larger than any toy size
    plans += [({5}, {1, 2}, 2 if not ck.thorough else 8, {"shape", "slice", "join", "gather", "index", "fill"}),
              ({5}, {2}, 32, {"perm", "shape", "join"}), ({6}, {2}, 64, {"slice", "join", "shape", "index"}),
              ({2}, {17, 20}, 400, {"shape", "perm", "join", "fill"} | ({"gather"} if ck.thorough else set())), ({1}, {1030}, 1030, {"shape", "perm", "fill", "join"}),
              ({3}, {5, 9}, 245, {"perm", "join", "shape"})]
    for ranks, exts, mx, fams in plans:
        r = run_tlc("LayoutCases", {"Ranks": ranks, "Exts": exts, "MaxNumel": mx, "Fams": fams}, inv)
        ck.count(r)
        recs += r.records
    ck.sets["calls_specified"] = len(recs)

    def variants(i, c):
        h = i + ck.seed
        if any(len(t["d"]) > 80 for t in c["ins"]):
            return [("f32", (0, 2, 3, 1)[h % 4])] + ([("i64", h % 4)] if h % 3 == 0 else [])
        v = [("f32", 0), (DTS[h % 5], 2 if h % 2 else 3)]
        if ck.thorough:
            v += [("f32", 2), ("f32", 1), (DTS[(h + 2) % 5], 0)]
        return v
    run_cases(ck, exe, recs, variants, "V02")
