from agrad import *

T, F = True, False


def run(ck):
    exe = B.build("rel")["ttdrv"]
    H = []

    def ex(*a, **k):
        H.append(programs(ck, *a, **k))
    ex(((1,), (2,)), (T, T), {"mul"}, "hhob")
    ex(((2,),), (T,), {"mul", "add"}, "hohob")
    ex(((1,),), (T,), {"mul"}, "hhhhhob")
    ex(((1,),), (T,), {"add"}, "hhbhhbhb")
    ex(((2,), (1,)), (T, T), {"add"}, "hhbhob")
    n = 12000 if ck.thorough else 400
    for s, (sh, rg) in enumerate([(((2,), (1, 2)), (T, T)), (((2, 2), (2,), ()), (T, T, F)), (((1,), (3,)), (T, T))]):
        ex(sh, rg, {"add", "mul", "sub", "sum", "shape", "perm"}, (), steps=14, feats={"o", "b", "h"}, regs=4, sim=n, seed=s)
        ex(sh, rg, {"add", "mul", "linear", "mse", "perm"}, tuple("hhohbhhobhob"), regs=4, sim=n, seed=10 + s)
    replay(ck, exe, gather(ck, H))
