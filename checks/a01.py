from agrad import *

T, F = True, False
ARITH = {"add", "sub", "mul"}
ALL = ARITH | {"scal", "sum", "sq", "relu", "shape", "perm", "linear"}


def run(ck):
    exe = B.build("rel")["ttdrv"]
    laws = ["OnceEach", "AfterConsumers", "AllProcessed", "Gradient"]
    ck.count(run_tlc("AutogradEngine", {"MaxN": 4, "CountConsumers": True}, laws, spec="Spec", properties=["Terminates"]))
    ck.count(run_tlc("AutogradEngine", {"MaxN": 6 if ck.thorough else 5, "CountConsumers": True}, laws, spec="Spec"))
    bad = run_tlc("AutogradEngine", {"MaxN": 4, "CountConsumers": False}, ["Gradient"], spec="Spec", expect_ok=False)
    if bad.ok or "Gradient is violated" not in bad.out:
        raise ModelError("AutogradEngine does not distinguish a traversal that ignores consumers")
    H = []

    def ex(*a, **k):
        H.append(programs(ck, *a, **k))
    # every program of two operations over every operation kind, backward from any tensor (leaves included)
    ex(((2, 1), (1, 2)), (T, T), ALL, "oob")
    ex(((2, 3), (3,)), (T, F), ALL, "oob")
    ex(((), (1,), (3,)), (T, T, T), ARITH | {"sum", "shape"}, "oob")
    ex(((1, 2), (2, 2)), (T, T), {"linear", "perm", "mul", "mse"}, "oob")
    # sharing: three operations over one and two leaves (diamonds, re-use at different depths)
    ex(((2,),), (T,), {"add", "mul", "sq"}, "ooob")
    ex(((1,), (2,)), (T, T), {"sub", "mul"} if not ck.thorough else ARITH, "ooob")
    # four operations over a single leaf: every sharing pattern of up to five tensors
    ex(((1,),), (T,), {"mul"} if not ck.thorough else {"mul", "sub"}, "oooob", regs=4)
    # two results that share intermediate ones: what one pass passes through them must not reach the other's
    ex(((1,),), (T,), {"mul", "add"}, "ooobb")
    # in-place arithmetic on intermediate results, dropping intermediate handles before backward
    ex(((2,), (1,)), (T, T), {"mul", "sum"}, "oioB".lower())
    ex(((2,), (1,)), (T, T), {"mul", "sub"}, "oodb")
    n = 16000 if ck.thorough else 400
    for s, (sh, rg) in enumerate([(((2, 3), (3,), ()), (T, T, T)), (((2,), (1, 2), (2, 2)), (T, F, T)), (((3, 1), (1, 2), (2,)), (F, T, T)), (((2, 1, 2), (2,)), (T, T))]):
        ex(sh, rg, ALL | {"mse"}, "ooooob", regs=5, sim=n, seed=s)
        ex(sh, rg, ARITH | {"sq", "relu"}, "ooiodoob", regs=6, sim=n, seed=10 + s)
    # every way of sharing: all graphs of up to five operations over one leaf, larger ones sampled
    def graphs(ops, **k):
        H.append(lambda: (run_tlc("SharedGraphs", dict(Ops=ops), ["AllUsed", "Emit"], spec="Spec", workers=2, heap="4g", **k), ((1,),), (True,), bool(k)))
    for ops in (3, 4, 5):
        graphs(ops)
    for ops, num in ((6, 1500), (7, 1500), (8, 1500)):
        graphs(ops, mode="sim", num=num * (10 if ck.thorough else 1), depth=ops + 3, seed=ck.seed + ops)
    replay(ck, exe, gather(ck, H))
    ck.assumptions += ["operations whose saved data serve one backward pass (softmax family, dropout, pooling, convolution, losses) are not differentiated twice through the same record",
                       "the derivative of relu exactly at zero is left open"]
