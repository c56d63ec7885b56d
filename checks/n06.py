from nn import *


def run(ck):
    exe = B.build("rel")["ttdrv"]
    leads = ((), (1,), (2,), (2, 2), (1, 3))
    cf = [(l, L, S, d, dv) for l in leads for L in (1, 2, 3) for S in (1, 2, 3, 4) for d, dv in ((1, 2), (2, 1), (4, 3))]
    if not ck.thorough:
        cf = __import__("random").Random(ck.seed).sample(cf, 110)
    plans = [plan({"attn", "causal", "attnbool", "attnadd", "attndrop"}, cf=cf[i:i + 40], seed=i) for i in range(0, len(cf), 40)]
    plans += [plan({"attn", "causal", "attnbool", "attnadd", "attndrop"}, cf=[((2, 2), 5, 7, 8, 6)], seed=9)]
    recs = specify(ck, plans)
    perform(ck, exe, recs, "N06")
    rope = [(d, ctx, b, h, s, off, th) for d, ctx, b, h, s, off in ((2, 4, 1, 1, 4, 0), (4, 6, 2, 1, 3, 2), (4, 8, 1, 2, 8, 0), (6, 5, 2, 3, 2, 3), (8, 9, 1, 2, 4, 5), (10, 3, 2, 2, 1, 2), (16, 20, 1, 1, 7, 11), (2, 40, 1, 1, 1, 39))
            for th in (10000, 50, 500000)]
    perform(ck, exe, specify(ck, [plan({"rope"}, cf=rope, seed=3)]), "N06", half=False, tol32=1e-4)
    ck.assumptions += ["rows whose positions are all masked are left open", "query, key and value have the same leading dimensions"]
