from opt import *

CONFIGS = {
    "SGD": [dict(mom=m, damp=d, wd=w, nest=n) for m, d, w, n in ((0, 0, 0, 0), (0.5, 0, 0, 0), (0.9, 0.25, 0, 0), (0, 0, 0.5, 0), (0.9, 0.5, 0.1, 0), (0.5, 0, 0, 1), (0.75, 0, 0.3, 1))],
    "Adagrad": [dict(lrd=l, wd=w, acc=a, eps=e) for l, w, a, e in ((0, 0, 0, 1e-6), (0.5, 0, 0.25, 0.125), (0.3, 0.2, 0.1, 0.01), (0, 0.4, 1, 0.5))],
    "RMSprop": [dict(alpha=a, eps=e, wd=w, mom=m, cent=c) for a, e, w, m, c in ((0.9, 0.01, 0, 0, 0), (0.5, 0.125, 0.2, 0, 0), (0.75, 0.05, 0, 0.5, 0), (0.9, 0.1, 0, 0, 1), (0.5, 0.2, 0.3, 0.75, 1))],
    "AdaDelta": [dict(rho=r, eps=e, wd=w) for r, e, w in ((0.9, 0.01, 0), (0.5, 0.25, 0), (0.75, 0.1, 0.3))],
    "Adam": [dict(b1=a, b2=b, eps=e, wd=w, ams=m) for a, b, e, w, m in ((0.9, 0.99, 0.01, 0, 0), (0.5, 0.75, 0.25, 0, 0), (0.8, 0.5, 0.1, 0.3, 0), (0.5, 0.25, 0.1, 0, 1), (0.9, 0.5, 0.125, 0.2, 1))],
}
CONFIGS["AdamW"] = [dict(c, wd=c["wd"] or w) for c, w in zip(CONFIGS["Adam"], (0.1, 0, 0.5, 0.25, 0))]


def run(ck):
    exe = B.build("rel")["ttdrv"]
    hs = []
    for algo, cs in CONFIGS.items():
        # every short history of one parameter, then long histories of several
        hs += histories(ck, algo, cs, ("a",), ((2,),), (0.1, 0.5), {"setgrad", "lr", "poke"}, 5 if not ck.thorough else 7, quiet=1, seed=0)
        hs += histories(ck, algo, cs, ("a", "b"), ((3,), (2, 2)), (0.1, 0.25), {"setgrad", "backward", "zero", "lr"}, 16, sim=25 if not ck.thorough else 700, seed=10 )
        hs += histories(ck, algo, cs, ("a",), ((2,),), (0.1,), {"setgrad", "ungrad"}, 7, quiet=1, seed=70)      # gradients that come and go
        if ck.thorough:
            hs += histories(ck, algo, cs, ("a", "b", "c"), ((3,), (2, 2), ()), (0.1, 0.25, 0.02), {"setgrad", "backward", "zero", "lr", "poke"}, 40, sim=300, seed=50 )
    replay_opt(ck, exe, hs)
    ck.sets.update(histories=len(hs), configurations=sum(map(len, CONFIGS.values())))
    ck.assumptions += ["the step number in the recurrences counts the optimiser's steps", "AMSGrad in the form that takes the maximum of bias-corrected second moments (the library's and the first published PyTorch form)", "single precision: values within 3e-5 of the recurrence evaluated in double precision"]
