"""Runs call records produced by the TLA+ case modules on the real library (direction: specification -> code)."""
import json
from vt import *

NODT = {"i32", "i64", "b"}


def fmt(x):
    if isinstance(x, str):
        return x
    if isinstance(x, float):
        return repr(x)
    return str(x)


def fcsv(xs):
    return ",".join(fmt(x) for x in xs) if len(xs) else "-"


def conv(x, dt):
    return (int(x) & 1) if dt == "b" else x


def script(c, dt="f32", lay=0, rg=0):
    """Lines performing case c with 'v' operands of type dt and layout variant lay."""
    L = []
    regs = []
    for i, t in enumerate(c["ins"]):
        d = dt if c["dts"][i] == "v" else c["dts"][i]
        r = f"a{i}"
        regs.append(r)
        v = lay if (lay in (0, 1, 3) or len(t["s"]) == 0 or all(t["s"])) else 1
        L.append(f"T {r} {d} {rg if c['dts'][i] == 'v' else 0} {csv(t['s'])} {fcsv([conv(x, d) for x in t['d']])} {v}")
    il = ";".join(csv(x) for x in c["il"]) or "-"
    kind = c["kind"]
    outs = "r" if kind != "t" else ",".join(f"r{k}" for k in range(max(1, len(c["exp"]))))
    if kind == "inplace":
        outs = "-"
    if c.get("preout"):
        L.append(f"T r0 {c.get('predt', dt)} 0 {csv(c['preout']['s'])} {fcsv([conv(x, dt) for x in c['preout']['d']])} {lay}")
    if c.get("nograd"):
        L.append("N+")
    L.append(f"O {c['op']} {outs} {','.join(regs) or '-'} {il} {fcsv(c['fl'])} {c.get('str', '')}".rstrip())
    if kind == "list":
        L.append("GL r")
    elif kind == "inplace":
        L.append("G a0")
    else:
        L += [f"G r{k}" for k in range(len(c["exp"]))]
    for i, r in enumerate(regs):
        if not (kind == "inplace" and i == 0):
            L.append(f"G {r}")
    L.append("K")
    return L


def parse(obs):
    """Observation lines -> list of (tag, name, value)."""
    r = []
    for l in obs:
        p = l.split(" ", 2)
        r.append((p[0], p[1], json.loads(p[2]) if len(p) > 2 else p[1]))
    return r


def judge(c, dt, st, obs, check_dt=True):
    """None if the observed behaviour is the specified one, else a message."""
    if st != 0:
        return f"terminated abnormally ({st})"
    o = parse(obs)
    if not c.get("rawbool"):  # truth is "not zero"
        for x in o:
            for g in (x[2] if isinstance(x[2], list) else [x[2]]):
                if isinstance(g, dict) and g.get("t") == "b":
                    g["d"] = [1 if v else 0 for v in g["d"]]
    n = len(c["exp"])
    if not c["ins"]:
        dt = "f32"
    exp = [{"s": e["s"], "d": [conv(x, dt) if isinstance(x, int) and c.get("boolmap", True) else x for x in e["d"]]} for e in c["exp"]]
    k = 0
    tol = c.get("tol", 0)
    if c["kind"] == "list":
        got = o[0][2]
        k = 1
        if len(got) != n:
            return f"returned {len(got)} tensors, specified {n}"
    elif c["kind"] == "inplace":
        got = [o[0][2]]
        k = 1
    else:
        got = [x[2] for x in o[:n]]
        k = n
    odts = c.get("odt") or ["v"] * n
    for i, (e, g) in enumerate(zip(exp, got)):
        if not same_tensor(e, g, tol):
            return f"result {i}: specified {json.dumps(e)[:300]} got {json.dumps(g)[:300]}"
        want = dt if odts[min(i, len(odts) - 1)] == "v" else odts[min(i, len(odts) - 1)]
        if check_dt and c["ins"] and want != "*" and g.get("t") != want:
            return f"result {i} has element type {g.get('t')}, specified {want}"
    for i, t in enumerate(c["ins"]):
        if c["kind"] == "inplace" and i == 0:
            continue
        d = dt if c["dts"][i] == "v" else c["dts"][i]
        if not same_tensor({"s": t["s"], "d": [conv(x, d) for x in t["d"]]}, o[k][2], 1e-6 if d in ("f32", "f16", "bf16") and any(isinstance(x, float) for x in t["d"]) else 0):
            return f"operand {i} changed from {json.dumps(t)[:200]} to {json.dumps(o[k][2])[:200]}"
        k += 1
    if o[k][0] == "K" and o[k][1] != "1":
        return "a tensor sharing memory with an operand changed"
    return None


def run_list(ck, exe, runs, label, env=None):
    """runs: list of (case, dtype, layout)."""
    jobs = [(str(i), script(c, dt, lay)) for i, (c, dt, lay) in enumerate(runs)]
    res = run_driver(exe, jobs, env=env)
    for i, (c, dt, lay) in enumerate(runs):
        st, obs = res[str(i)]
        m = judge(c, dt, st, obs)
        ck.traces += 1
        if m:
            ck.violation(f"{label}:{c['op']}", f"{c['op']} dtype={dt} layout={lay} shapes={[t['s'] for t in c['ins']]} args={c['il']} {c['fl']}: {m}",
                         {"case": c, "dtype": dt, "layout": lay, "script": jobs[i][1], "observed": obs, "status": str(st)})
        else:
            ck.sample({"op": c["op"], "dtype": dt, "layout": lay, "ins": c["ins"], "il": c["il"], "exp": c["exp"]} if len(json.dumps(c)) < 600 else {"op": c["op"], "dtype": dt, "shapes": [t["s"] for t in c["ins"]]})


def run_cases(ck, exe, recs, variants, label, env=None):
    """variants: function(case index, case) -> list of (dtype, layout)."""
    jobs, meta = [], {}
    for i, c in enumerate(recs):
        for dt, lay in variants(i, c):
            cid = f"{i}/{dt}/{lay}"
            jobs.append((cid, script(c, dt, lay)))
            meta[cid] = (c, dt, lay)
    res = run_driver(exe, jobs, env=env)
    bad = 0
    for cid, lines in jobs:
        c, dt, lay = meta[cid]
        st, obs = res[cid]
        m = judge(c, dt, st, obs)
        ck.traces += 1
        if m:
            bad += 1
            ck.violation(f"{label}:{c['op']}", f"{c['op']} dtype={dt} layout={lay} shapes={[t['s'] for t in c['ins']]} args={c['il']} {c['fl']}: {m}",
                         {"case": c, "dtype": dt, "layout": lay, "script": lines, "observed": obs, "status": str(st)})
        else:
            ck.sample({"op": c["op"], "dtype": dt, "layout": lay, "ins": c["ins"], "il": c["il"], "exp": c["exp"]} if len(json.dumps(c)) < 600 else {"op": c["op"], "dtype": dt, "shapes": [t["s"] for t in c["ins"]]})
    return bad
