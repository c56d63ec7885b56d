from cases import *
from terms import ev
from v03 import TOL, shapes, shset


def grad_script(c, dt, lay):
    L = []
    for i, t in enumerate(c["ins"]):
        d = dt if c["dts"][i] == "v" else c["dts"][i]
        v = lay if (lay in (0, 1, 3) or len(t["s"]) == 0 or all(t["s"])) else 1
        L.append(f"T a{i} {d} {1 if c['rg'][i] else 0} {csv(t['s'])} {fcsv(t['d'])} {v}")
    il = ";".join(csv(x) for x in c["il"]) or "-"
    L.append(f"O {c['op']} r0 {','.join('a%d' % i for i in range(len(c['ins'])))} {il} {fcsv(c['fl'])}")
    L += ["G r0", "Q r0", f"T up {dt} 0 {csv(c['g']['s'])} {fcsv(c['g']['d'])} {lay if lay != 2 or c['g']['s'] else 0}", "B r0 up"]
    for i in range(len(c["ins"])):
        L += [f"GG a{i}", f"G a{i}"]
    return L + ["G up", "K"]


def judge_grad(c, dt, st, obs, tol):
    if st != 0:
        return f"terminated abnormally ({st}) after {len(obs)} observations"
    o = parse(obs)
    exp, grads = c["exp"][0], c["grads"]
    if c["kind"] == "mask":  # the forward result shows which elements were kept
        x, g, p = c["ins"][0]["d"], c["g"]["d"], c["fl"][0]
        y = o[0][2]["d"]
        keep = [1 if v != 0 else 0 for v in y] if c["il"][0][0] else [1] * len(x)
        k = 1 / (1 - p) if c["il"][0][0] and p < 1 else 1
        if c["il"][0][0] and p == 1 and any(keep):
            return f"dropout with probability 1 kept {y}"
        if c["il"][0][0] and p == 0 and not all(keep):
            return f"dropout with probability 0 dropped {y}"
        exp = {"s": exp["s"], "d": [v * m * k for v, m in zip(x, keep)]}
        grads = [{"s": exp["s"], "d": [v * m * k for v, m in zip(g, keep)]}]
    if not same_tensor(exp, o[0][2], tol):
        return f"forward value {json.dumps(o[0][2])[:300]}, specified {json.dumps(exp)[:300]}"
    if not o[1][2]["rg"]:
        return "result does not require gradient"
    for i in range(len(c["ins"])):
        g = o[2 + 2 * i][2]
        if c["rg"][i]:
            if g.get("u"):
                return f"operand {i} received no gradient"
            big = max([1.0] + [abs(v) for v in grads[i]["d"] if isinstance(v, (int, float)) and math.isfinite(v)])
            if list(g["s"]) != list(grads[i]["s"]) or not all(close(a, b, tol) or abs(fnum(a) - fnum(b)) <= tol * big for a, b in zip(grads[i]["d"], g["d"])):
                return f"gradient of operand {i} with upstream {json.dumps(c['g']['d'])[:120]} is {json.dumps(g)[:300]}, specified {json.dumps(grads[i])[:300]}"
        elif g.get("u") != 3:
            return f"operand {i} does not require gradient but holds {json.dumps(g)[:100]}"
        if not same_tensor(c["ins"][i], o[3 + 2 * i][2], 1e-6):
            return f"operand {i} changed to {json.dumps(o[3 + 2 * i][2])[:200]}"
    if not same_tensor(c["g"], o[2 + 2 * len(c["ins"])][2], 0):
        return "the upstream gradient changed"
    if o[-1][1] != "1":
        return "a tensor sharing memory with an operand changed"
    return None


def cfgs(l):
    return Raw("{" + ", ".join(tla(x) for x in l) + "}")


def run(ck):
    exe = B.build("rel")["ttdrv"]
    inv = ["TypeOK", "ViewLaw", "EulerLaw", "WeightLaw", "Emit"]
    none, s1 = [()], [[]]
    sh2 = shapes((0, 1, 2), (1, 2, 3), 6)
    plans = []

    def plan(fams, shp=s1, shp2=s1, cf=none, seed=0):
        plans.append({"Shapes": shset(shp), "Shapes2": shset(shp2), "Fams": set(fams), "Configs": cfgs(cf), "Seed": seed})
    plan({"bin"}, sh2, sh2, seed=1)
    plan({"bin", "mse"}, [[2, 1, 3], [2, 2, 2], [1, 2, 1, 2]], [[2, 3, 1], [3], [1, 1], [], [2, 1, 1], [2, 2], [2, 1, 2, 2]], seed=2)
    plan({"mse"}, sh2, sh2, seed=3)
    plan({"un", "drop"}, shapes((0, 1, 2, 3), (1, 2, 3), 12) + [[2, 1, 2, 2], [40], [0, 2]], seed=4)
    plan({"soft"}, [[1], [3], [5], [2, 3], [3, 1], [1, 2], [2, 3, 2], [2, 1, 3], [2, 2, 1, 2]], seed=5)
    plan({"views"}, shapes((0, 1, 2, 3), (1, 2, 3), 12) + [[2, 1, 3, 2]], seed=6)
    plan({"linear"}, cf=[(l, n, m) for l in ((), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2)) for n in (1, 2, 3) for m in (1, 2, 4)] + [((5,), 17, 9)], seed=7)
    conv = []
    for N, C, O in ((1, 1, 1), (2, 2, 3), (1, 3, 2), (2, 1, 2)):
        for hw in ((4, 5), (3, 3), (5, 2)):
            for k in ((1, 1), (2, 2), (3, 2), (2, 3)):
                for st in ((1, 1), (2, 2), (1, 2), (2, 1), (3, 2)):
                    for pad in ((0, 0), (1, 1), (0, 1), (1, 0), (2, 1)):
                        if hw[0] + 2 * pad[0] >= k[0] and hw[1] + 2 * pad[1] >= k[1]:
                            conv.append((N, C, O, hw, k, st, pad))
    pool = [x for x in conv if 2 * x[6][0] <= x[4][0] and 2 * x[6][1] <= x[4][1]]
    rnd = __import__("random").Random(ck.seed)
    pick = conv if ck.thorough else rnd.sample(conv, 130) + [(2, 2, 3, (4, 5), (3, 2), (1, 2), (1, 1)), (2, 2, 3, (4, 5), (2, 3), (2, 1), (0, 1))]
    for i in range(0, len(pick), 70):
        plan({"conv"}, cf=pick[i:i + 70], seed=8 + i)
    plan({"pool"}, cf=[x[:2] + (1,) + x[3:] for x in pool] + [(1, 1, 1, (4, 4), (2, 2), (2, 2), (0, 0)), (2, 3, 1, (6, 7), (3, 3), (2, 2), (1, 1))], seed=9)
    plan({"nll"}, cf=[(n, k) for n in (1, 2, 3, 5) for k in (1, 2, 4)], seed=10)
    recs = []
    for p in plans:
        t0 = time.time()
        r = run_tlc("GradCases", p, inv)
        ck.count(r)
        for c in r.records:
            for f in ("ins", "exp", "grads"):
                c[f] = [{"s": t["s"], "d": [ev(x) for x in t["d"]]} for t in c[f]]
            c["fl"] = [ev(x) for x in c["fl"]]
        recs += r.records
        if os.environ.get("VT_TIME"):
            print(p["Fams"], len(r.records), round(time.time() - t0, 1), flush=True)
    jobs, meta = [], {}
    for i, c in enumerate(recs):
        h = i + ck.seed
        vs = [("f32", 0)]
        if h % 3 == 0 or ck.thorough:
            vs.append(("f32", 2 if h % 2 else 3))
        if c["kind"] == "mask":
            vs = [("f32", h % 2 * 3)] * 3
        for n, (dt, lay) in enumerate(vs):
            cid = f"{i}/{n}"
            jobs.append((cid, grad_script(c, dt, lay)))
            meta[cid] = (c, dt, lay)
    ck.sets["calls_specified"] = len(recs)
    res = run_driver(exe, jobs)
    for cid, L in jobs:
        c, dt, lay = meta[cid]
        st, obs = res[cid]
        ck.traces += 1
        m = judge_grad(c, dt, st, obs, 2e-5)
        if m:
            key = c["op"]
            if key == "addA":  # the known defect, exactly: the factor is missing from the second operand's gradient and nothing else is wrong
                d = json.loads(json.dumps(c))
                d["grads"][1]["d"] = [x / c["fl"][0] for x in d["grads"][1]["d"]]
                if judge_grad(d, dt, st, obs, 2e-5) is None:
                    key = "addA:alpha"
            ck.violation(f"A02:{key}", f"{c['op']} dtype={dt} layout={lay} shapes={[t['s'] for t in c['ins']]} requires-grad={c['rg']} args={c['il']} {c['fl']}: {m}", {"case": c, "script": L, "observed": obs, "status": str(st)})
        else:
            ck.sample({"op": c["op"], "shapes": [t["s"] for t in c["ins"]], "rg": c["rg"], "il": c["il"], "g": c["g"]["d"][:8]})
