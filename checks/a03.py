from agrad import *

T, F = True, False


def run(ck):
    exe = B.build("rel")["ttdrv"]
    H = []

    def ex(*a, **k):
        H.append(programs(ck, *a, **k))
    ops = {"mul", "add"}
    ex(((2,), (2,)), (T, T), ops, "obgb")       # one result, twice, with every manipulation of the stored gradients between
    ex(((1,), (2,)), (T, T), ops, "bggb")       # backward from the leaves themselves: the upstream gradient is the gradient
    ex(((2,),), (T,), {"mul", "add"}, "obgobg")  # recomputed results
    ex(((2,), (1,)), (T, T), {"perm", "shape", "sum"}, "obbg")
    ex(((2,), (2,)), (T, T), {"add"}, "oobbg")
    n = 12000 if ck.thorough else 400
    for s, (sh, rg) in enumerate([(((2,), (1, 2)), (T, T)), (((2, 2), (2,), ()), (T, T, F)), (((1,), (3,)), (T, T))]):
        ex(sh, rg, {"add", "mul", "sub", "sum", "shape", "perm", "scal"}, (), steps=10, feats={"o", "b", "g", "d"}, regs=4, sim=n, seed=s)
        ex(sh, rg, {"add", "mul", "sub", "linear", "mse", "perm"}, tuple("obgobgobgbgb"), regs=4, sim=n, seed=10 + s)
    replay(ck, exe, gather(ck, H))
