from cases import *
import math

N = 64
# name -> (script line template writing register {r}, kind, judge of a single outcome)
FLT = ["f32", "f16", "bf16"]


def inr(lo, hi):
    return lambda d, dt: None if all(lo <= x <= hi for x in d) else f"values outside [{lo}, {hi}]"


def vals(*vs):
    return lambda d, dt: None if all(x in vs for x in d) else f"values other than {vs}"


def perm(n):
    return lambda d, dt: None if sorted(d) == list(range(n)) else "not a permutation"


ANY = lambda d, dt: None if all(math.isfinite(fnum(x)) and abs(fnum(x)) < 8 for x in d) else "implausible values"
OPS = {
    "rand": (["O rand {r} - 8,8 -"], inr(0, 1), True),
    "randn": (["O randn {r} - 7,9 -"], ANY, True),
    "uniform": (["O uniform {r} - 64 2,5"], inr(2, 5), True),
    "bernoulli": (["O bernoulli {r} - 8,8 0.5"], vals(0, 1), True),
    "fillUniform": (["T {r} {dt} 0 64 " + csv([9] * 64) + " 2", "O fillUniform_ - {r} - -3,-1"], inr(-3, -1), True),
    "fillNormal": (["T {r} {dt} 0 63 " + csv([9] * 63), "O fillNormal_ - {r} - 0,1"], ANY, True),
    "fillBernoulli": (["T {r} {dt} 0 64 " + csv([9] * 64), "O fillBernoulli_ - {r} - 0.5"], vals(0, 1), True),
    "dropout": (["T x {dt} 0 64 " + csv([2] * 64), "O dropout {r} x 1 0.5"], vals(0, 4), True),
    "mDropout": (["T x {dt} 0 64 " + csv([3] * 64), "O mDropout {r} x 1 0.25"], vals(0, 4), True),
    "multinomial": (["T w {dt} 0 2,3 1,2,1,0,1,1", "O multinomial {r} w 32;1"], lambda d, dt: None if all(x in (0, 1, 2) for x in d[:32]) and all(x in (1, 2) for x in d[32:]) else "impossible category", True),
    "choice": (["T w {dt} 0 40 " + csv([1] * 40), "O multinomial {r} w 40;0"], perm(40), True),
    "resetLinear": (["O resetLinear {r} - 16,4 -"], inr(-0.25, 0.25), True),
    "resetConv": (["O resetConv {r} - 4,2 -"], inr(-1 / 6 - 1e-6, 1 / 6 + 1e-6), True),
    "resetEmbedding": (["O resetEmbedding {r} - 9,7 -"], ANY, True),
    "shuffle": (["O shuffle {r} - 40 -"], perm(40), True),
}
STILL = {
    "zeros": ["O zeros {r} - 5 -"], "sorting": ["T q f32 0 5 3,1,2,5,4", "O sort {r},i q 0;0"], "evalDropout": ["T q f32 0 4 1,2,3,4", "O mDropout {r} q 0 0.5"],
    "sampler": ["O sampler {r} - 12,0 -"], "arith": ["T q f32 0 4 1,2,3,4", "O add {r} q,q"],
}


def run(ck):
    exe = B.build("rel")["ttdrv"]
    groups = [({"rand", "randn", "uniform", "bernoulli"}, {"zeros", "sampler"}), ({"fillNormal", "dropout", "multinomial", "shuffle"}, {"evalDropout", "sampler"}),
              ({"fillUniform", "fillBernoulli", "mDropout", "choice"}, {"sorting", "sampler"}), ({"resetLinear", "randn", "resetConv", "resetEmbedding"}, {"arith", "sampler"}),
              ({"dropout", "randn", "shuffle", "multinomial"}, {"arith"}), ({"bernoulli", "fillUniform", "shuffle", "fillNormal"}, {"zeros"})]
    logs = []
    for g, st in groups:
        r = run_tlc("RngMachine", {"DrawOps": g, "StillOps": st, "Seeds": {5, 1234567} if not ck.thorough else {5, 1234567, 0, 99}, "ProgLen": 3, "MaxGarbage": 1},
                    ["SameTokens", "Fresh", "Emit"])
        ck.count(r)
        logs += [(x["log"], sorted(g)) for x in r.records]
    cap = 30000 if ck.thorough else 6000
    if len(logs) > cap:
        logs = [logs[(i * len(logs)) // cap] for i in range(cap)]
    jobs, meta = [], {}
    for i, (log, g) in enumerate(logs):
        L = []
        dt = FLT[(i + ck.seed) % 3] if False else FLT[len("".join(g)) % 3]
        for k, e in enumerate(log):
            if e["op"] == "seed":
                L.append(f"SEED {e['tok']['seed']}")
                continue
            lines = OPS[e["op"]][0] if e["op"] in OPS else STILL[e["op"]]
            L += [("TH " if e["th"] else "") + l.format(r=f"r{k}", dt=dt) for l in lines]
            if e["op"] in OPS:
                L.append(f"G r{k}")
        jobs.append((str(i), L))
        meta[str(i)] = (log, dt)
    res = run_driver(exe, jobs)
    seen, per = {}, {}
    for cid, L in jobs:
        log, dt = meta[cid]
        st, obs = res[cid]
        ck.traces += 1
        if st != 0:
            ck.violation("V08:abort", f"history {[e['op'] for e in log]} terminated abnormally ({st})", {"script": L})
            continue
        o = iter(parse(obs))
        inrun = {}
        for e in log:
            if e["op"] == "seed":
                inrun = {}
                continue
            if e["op"] not in OPS:
                continue
            d = next(o)[2]["d"]
            m = OPS[e["op"]][1](d, dt)
            what = None
            if m:
                what = f"{e['op']}: {m}: {d[:8]}"
            if e["tok"]["seed"] >= 0:
                key = (e["op"], dt, e["tok"]["seed"], tuple(e["tok"]["pos"]))
                if key in seen and seen[key][0] != d:
                    what = f"{e['op']} after seed {key[2]} and draws {list(key[3])} gave {d[:5]}... here but {seen[key][0][:5]}... in another run"
                seen.setdefault(key, (d, cid))
                for prev in inrun.get(e["op"], []):
                    if prev == d:
                        what = f"{e['op']} repeated the outcome of an earlier draw {d[:6]}... in history {[x['op'] for x in log]}"
                    elif e["op"] in ("rand", "uniform") and len(set(prev) & set(d)) > 3:
                        what = f"{e['op']} repeated {len(set(prev) & set(d))} of the values of an earlier draw"
                inrun.setdefault(e["op"], []).append(d)
            if what:
                ck.violation("V08:" + e["op"], what, {"script": L, "observed": obs})
        ck.sample({"history": [e["op"] for e in log], "dtype": dt})
    # outcomes after different seeds differ
    byhist = {}
    for (op, dt, sd, pos), (d, cid) in seen.items():
        if (op, dt, pos) in byhist and byhist[(op, dt, pos)][0] == d and byhist[(op, dt, pos)][1] != sd:
            ck.violation("V08:seedless", f"{op} gave the same outcome after seeds {sd} and {byhist[(op, dt, pos)][1]}", {"history": pos})
        byhist[(op, dt, pos)] = (d, sd)
    ck.sets["distinct_tokens_compared"] = len(seen)
    stats(ck, exe)


def stats(ck, exe):
    """Parameters of the distributions: mean and spread of large draws, every value in its declared range."""
    jobs, want = [], {}
    n = 20000

    def add(name, lines, mean, var, lo, hi, fourth=3):
        name = name.replace(" ", "_")
        for s in range(3):
            jobs.append((f"{name}/{s}", [f"SEED {31 * s + ck.seed}"] + lines + ["G r"]))
            want[f"{name}/{s}"] = (mean, var, lo, hi, fourth)
    for dt in FLT:
        z = f"T r {dt} 0 {n} " + csv([0] * n)
        for a, b in ((0, 1), (-2, 3), (5, 5.5)):
            add(f"uniform {a} {b} {dt}", [z, f"O fillUniform_ - r - {a},{b}"], (a + b) / 2, (b - a) ** 2 / 12, a, b)
        for mu, sd in ((0, 1), (2, 0.5), (-3, 2)):
            add(f"normal {mu} {sd} {dt}", [z, f"O fillNormal_ - r - {mu},{sd}"], mu, sd * sd, mu - 7 * sd, mu + 7 * sd)
        for p in (0, 0.1, 0.5, 0.9, 1):
            add(f"bernoulli {p} {dt}", [z, f"O fillBernoulli_ - r - {p}"], p, p * (1 - p), 0, 1)
        for p in (0, 0.2, 0.5, 0.75):
            o = f"T x {dt} 0 {n} " + csv([1] * n)
            for op in ("dropout r x 1", "mDropout r x 1"):
                add(f"{op.split()[0]} {p} {dt}", [o, f"O {op} {p}"], 1, p / (1 - p), 0, 1 / (1 - p) * 1.01)
    add("rand", [f"O rand r - {n} -"], 0.5, 1 / 12, 0, 1)
    add("randn", [f"O randn r - {n} -"], 0, 1, -7, 7)
    add("uniform", [f"O uniform r - {n} 1,4"], 2.5, 9 / 12, 1, 4)
    add("bernoulli", [f"O bernoulli r - {n} 0.3"], 0.3, 0.21, 0, 1)
    res = run_driver(exe, jobs)
    for cid, L in jobs:
        st, obs = res[cid]
        ck.traces += 1
        mean, var, lo, hi, _ = want[cid]
        m = None
        if st != 0:
            m = f"terminated abnormally ({st})"
        else:
            d = [fnum(x) for x in parse(obs)[0][2]["d"]]
            k = len(d)
            mu = sum(d) / k
            v = sum((x - mu) ** 2 for x in d) / k
            slack = 0.02 if "bf16" in cid else 0.002 if "f16" in cid else 1e-5
            if min(d) < lo - slack * max(1, abs(lo)) or max(d) > hi + slack * max(1, abs(hi)):
                m = f"values in [{min(d)}, {max(d)}], declared range [{lo}, {hi}]"
            elif abs(mu - mean) > 6 * math.sqrt(var / k) + slack * max(1, abs(mean)):
                m = f"mean {mu}, declared {mean}"
            elif abs(v - var) > 0.1 * var + slack * 4:
                m = f"variance {v}, declared {var}"
        if m:
            ck.violation("V08:stat:" + cid.split("_")[0], f"{cid}: {m}", {"script": [l[:200] for l in L]})
    ck.sets["distribution_checks"] = len(jobs)
    ck.assumptions.append("two independent draws of 40 or more outcomes are assumed never to coincide; means within 6 standard errors")
