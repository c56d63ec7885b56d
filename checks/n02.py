from nn import *


def run(ck):
    exe = B.build("rel")["ttdrv"]
    sh2 = shapes((0, 1, 2), (1, 2, 3), 6)
    plans = [plan({"mse"}, sh2, sh2, seed=1), plan({"mse"}, [[2, 1, 3], [2, 2, 2], [1, 2, 1, 2], [40], [7, 9]], [[2, 3, 1], [3], [1, 1], [], [2, 1, 1], [2, 2], [2, 1, 2, 2], [40], [7, 9], [2, 2, 2], [2, 1, 3]], seed=2),
             plan({"nll"}, cf=[(n, k) for n in (1, 2, 3, 5, 8) for k in (1, 2, 4, 10)] + [(64, 10), (33, 3)], seed=3), plan({"nll"}, cf=[(n, k) for n in (1, 2, 3, 5, 8) for k in (1, 2, 4, 10)], seed=8)]
    if ck.thorough:
        plans += [plan({"mse"}, shapes((3,), (1, 2, 3), 12), shapes((0, 1, 2, 3), (1, 2, 3), 12), seed=5), plan({"nll"}, cf=[(n, k) for n in range(1, 16) for k in range(1, 9)], seed=11)]
    perform(ck, exe, specify(ck, plans), "N02")
