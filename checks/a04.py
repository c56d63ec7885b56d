from agrad import *

T, F = True, False


def run(ck):
    exe = B.build("rel")["ttdrv"]
    H = []

    def ex(*a, **k):
        H.append(programs(ck, *a, **k))
    ops = {"mul", "sum"}
    for p in ("soso", "sosob", "susob", "susobsub", "osbsb", "ssoso"):
        ex(((2,), (2,)), (T, F), ops, p)
    ex(((2,), (1,)), (T, F), {"add"}, "sososob", feats={"thread"})
    ex(((1,), (2,)), (T, F), {"add"} if not ck.thorough else {"add", "mul"}, "ssooso", feats={"thread"})
    ex(((2,), (2,)), (T, F), {"add"}, "oosiob")
    ex(((2, 2), (2, 2)), (T, F), {"add", "sub", "mul", "scal", "sum", "sq", "relu", "shape", "perm", "linear", "mse"}, "soo")
    n = 12000 if ck.thorough else 400
    for s, (sh, rg) in enumerate([(((2,), (1, 2)), (T, F)), (((2, 2), (2,), ()), (T, T, F)), (((1,), (3,)), (F, T))]):
        ex(sh, rg, {"add", "mul", "sub", "sum", "shape", "scal", "perm"}, (), steps=12, feats={"o", "b", "s", "u", "d", "i", "thread"}, regs=5, sim=n, seed=s)
        ex(sh, rg, {"add", "mul", "linear", "mse", "perm"}, tuple("sousosuossosb"), regs=6, feats={"thread"}, sim=n, seed=10 + s)
    replay(ck, exe, gather(ck, H))
