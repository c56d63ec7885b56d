from nn import *


def geometry():
    conv = []
    for N, C, O in ((1, 1, 1), (2, 2, 3), (1, 3, 2), (2, 1, 2), (3, 2, 1)):
        for hw in ((4, 5), (3, 3), (5, 2), (1, 4), (6, 6)):
            for k in ((1, 1), (2, 2), (3, 2), (2, 3), (3, 3), (1, 2)):
                for st in ((1, 1), (2, 2), (1, 2), (2, 1), (3, 2)):
                    for pad in ((0, 0), (1, 1), (0, 1), (1, 0), (2, 1)):
                        if hw[0] + 2 * pad[0] >= k[0] and hw[1] + 2 * pad[1] >= k[1]:
                            conv.append((N, C, O, hw, k, st, pad))
    pool = [x for x in conv if 2 * x[6][0] <= x[4][0] and 2 * x[6][1] <= x[4][1]]
    pool += [(0,) + x[1:] for x in pool if x[0] == 1]
    return conv, pool


def run(ck):
    exe = B.build("rel")["ttdrv"]
    conv, pool = geometry()
    rnd = __import__("random").Random(ck.seed)
    full = ck.thorough
    cs = conv if full else rnd.sample(conv, 500)
    ps = sorted(set((x[0], x[1], 1) + x[3:] for x in pool))
    ps = ps if full else rnd.sample(ps, 250)
    plans = [plan({"linear"}, cf=[(l, n, m) for l in ((), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2), (1, 2, 1, 2)) for n in (1, 2, 3, 5) for m in (1, 2, 4)] + [((5,), 17, 9), ((33,), 20, 31), ((2, 9), 64, 3)])]
    plans += [plan({"conv"}, cf=cs[i:i + 125], seed=i) for i in range(0, len(cs), 125)]
    plans += [plan({"conv"}, cf=[(2, 3, 4, (9, 8), (3, 3), (2, 2), (1, 1)), (1, 2, 5, (12, 7), (5, 4), (1, 3), (2, 2)), (2, 1, 2, (8, 8), (8, 8), (1, 1), (0, 0))])]
    plans += [plan({"pool"}, cf=ps[i:i + 63], seed=i) for i in range(0, len(ps), 63)]
    plans += [plan({"pool"}, cf=[(2, 3, 1, (9, 8), (3, 3), (2, 2), (1, 1)), (1, 2, 1, (12, 7), (5, 4), (1, 3), (2, 2))])]
    sh = [[1], [3], [5], [2, 3], [3, 1], [1, 2], [2, 3, 2], [2, 1, 3], [2, 2, 1, 2], [17], [3, 11]] + ([[4, 3, 5], [2, 33]] if full else [])
    plans += [plan({"soft", "softfar"}, shp=sh, seed=3), plan({"norm"}, shp=[s for s in sh if s[-1] > 1 or True] + [[2, 64]], seed=4)]
    plans += [plan({"emb"}, shp=[[1], [4], [2, 3], [2, 1, 3], [7]], cf=[(1, 1), (3, 2), (5, 4), (2, 7)], seed=5)]
    plans += [plan({"act"}, shp=shapes((1, 2, 3, 4), (1, 2, 3), 24) + [[50]], seed=6), plan({"drop"}, shp=[[1], [8], [2, 3], [2, 2, 2], [300]], seed=7)]
    recs = specify(ck, plans)
    for c in recs:  # an unbatched pooling result may keep a leading extent of one
        if "axPool" in c["op"] and len(c["ins"][0]["s"]) == 3:
            c["alt"] = [1] + c["exp"][0]["s"]
    perform(ck, exe, [c for c in recs if "alt" not in c], "N01")
    three = [dict(c, exp=[{"s": c["alt"], "d": c["exp"][0]["d"]}]) for c in recs if "alt" in c]
    perform(ck, exe, three, "N01")
    # how often dropout keeps an element
    L, meta = [], []
    for i, p in enumerate((0.1, 0.25, 0.5, 0.8, 0.95)):
        n = 20000
        for op in ("dropout", "mDropout"):
            L.append((f"f{i}{op}", [f"SEED {ck.seed * 7 + i}", f"O ones x - {n} -", f"O {op} r x 1 {p}", "O sum s r - -", "G s"]))
            meta.append((f"f{i}{op}", p, n))
    res = run_driver(exe, L)
    for cid, p, n in meta:
        st, obs = res[cid]
        ck.traces += 1
        kept = fnum(parse(obs)[0][2]["d"][0]) * (1 - p) / n if st == 0 else -1
        if abs(kept - (1 - p)) > 6 * math.sqrt(p * (1 - p) / n) + 1e-4:
            ck.violation("N01:dropout:rate", f"dropout with probability {p} kept {kept:.4f} of {n} elements", {"case": cid, "observed": obs, "status": str(st)})
    ck.assumptions += ["normalisation over the last dimension only (the library asserts this)", "an unbatched (3-D) pooling input yields the pooled values with a leading extent of one, as the library documents by its own tests"]
