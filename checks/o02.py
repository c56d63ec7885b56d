from opt import *
from o01 import CONFIGS


def run(ck):
    exe = B.build("rel")["ttdrv"]
    hs = []
    every = {"setgrad", "backward", "zero", "ozg", "gradfill", "lr", "poke", "freeze", "ungrad"}
    for algo, cs in CONFIGS.items():
        hs += histories(ck, algo, cs, ("a",), ((2,),), (0.25,), {"backward", "gradfill", "zero"}, 5 if not ck.thorough else 6, quiet=1 + ck.thorough, seed=0)
        hs += histories(ck, algo, cs, ("a", "b", "c"), ((2,), (1, 2), ()), (0.1, 0.5), every, 14, sim=25 if not ck.thorough else 700, seed=20 )
        hs += histories(ck, algo, cs, ("a", "b"), ((2,), (2,)), (0.1,), {"backward", "gradfill", "freeze"}, 10, quiet=1, sim=12 if not ck.thorough else 400, seed=40 )
    replay_opt(ck, exe, hs)
    ck.sets.update(histories=len(hs), configurations=sum(map(len, CONFIGS.values())))
    ck.assumptions += ["in-place changes of a gradient are made with fill_ and zeroGrad, the library's in-place writers"]
