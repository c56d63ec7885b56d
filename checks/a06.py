from cases import *

SIZES = [300, 700, 1300, 2500]
RANGES = ",".join(f"{4 * n}-{4 * n + 64}" for n in SIZES)
UN = {"sin": "O sin {r} {x}", "relu": "O relu {r} {x}", "pow": "O powS {r} {x} - 2", "softmax": "O softmax {r} {x} 0", "logSoftmax": "O logSoftmax {r} {x} 0", "dropout": "O dropout {r} {x} 1 0.5",
      "reshape": "O reshape {r} {x} {n}", "flatten": "O flatten {r} {x} 0,-1", "conv": None, "pool": None, "permute": None, "squeeze": None, "linear": None}


def unary(op, r, x, n):
    f = UN[op]
    if f:
        return [f.format(r=r, x=x, n=n)]
    a, b = n // 100, 100
    if op == "conv":
        return [f"O reshape u_ {x} 1,1,{a},{b}", "T k_ f32 1 1,1,1,1 2", "T c_ f32 1 1 1", "O conv2d u_ u_,k_,c_ 1,1;0,0", f"O reshape {r} u_ {n}", "D u_", "D k_", "D c_"]
    if op == "pool":
        return [f"O reshape u_ {x} 1,1,{a},{b}", "O maxPool2d u_ u_ 1,1;1,1;0,0", f"O reshape {r} u_ {n}", "D u_"]
    if op == "permute":
        return [f"O reshape u_ {x} {a},{b}", "O permute u_ u_ 1,0", f"O reshape {r} u_ {n}", "D u_"]
    if op == "squeeze":
        return [f"O unsqueeze u_ {x} 0", f"O squeeze {r} u_ 0", "D u_"]
    if op == "linear":
        return [f"O reshape u_ {x} {n},1", "T k_ f32 1 1,1 3", "O linear u_ u_,k_", f"O reshape {r} u_ {n}", "D u_", "D k_"]


def lines(log, run):
    """The lines of one run of the history, with the observations after every action, and the checks to make: (position, kind, data)."""
    L, cls = [], {}
    for e in log:
        r, x, y = f"r{e['r']}", f"r{e['x']}", f"r{e['y']}"
        a = e["a"]
        if a == "leaf":
            n = SIZES[e["g"] - 1]
            L.append(f"TF {r} {int(e['rg'])} {n} {1 + len(L) % 7}")
            cls[e["r"]] = n
        elif a == "un":
            L += unary(e["op"], r, x, cls[e["x"]])
            cls[e["r"]] = cls[e["x"]]
        elif a == "bin":
            L.append(f"O {e['op']} {r} {x},{y}")
            cls[e["r"]] = cls[e["x"]]
        elif a == "cross":
            L += [f"O sum s_ {y}", f"O mul {r} {x},s_", "D s_"]
            cls[e["r"]] = cls[e["x"]]
        elif a == "alias":
            L.append(f"O alias {r} {x}")
            cls[e["r"]] = cls[e["x"]]
        elif a == "inplace":
            L.append(f"O add_ - {x},{y}")
        elif a == "fill":
            L.append(f"O fill_ - {x} - 2")
        elif a == "backward":
            L += [f"O sum s_ {x}", "B s_", "D s_"]
        elif a == "grad":
            L.append(f"GR {r} {x}")
            cls[e["r"]] = cls[e["x"]]
        elif a == "zero":
            L.append(f"ZG {x}")
        elif a == "clone":
            L.append(f"O clone {r} {x}")
            cls[e["r"]] = cls[e["x"]]
        elif a == "drop":
            L.append(f"D {x}")
        elif a == "open":
            L.append("N+")
        elif a == "close":
            L.append("N-")
        L.append(f"MEM {RANGES}")
        for q in sorted(e["live"]):
            L.append(f"CK r{q}")
    if sum(e["a"] == "open" for e in log) > sum(e["a"] == "close" for e in log):
        L.append("N-")
    return L + ["DA", f"MEM {RANGES}"]


def marks(log):
    """After every action: which handles hold a value that must still be what it was when first seen."""
    ident, fresh, out = {}, 0, []
    for e in log:
        a = e["a"]
        fresh += 1
        if a in ("leaf", "un", "bin", "cross", "clone"):
            ident[e["r"]] = fresh
        elif a == "alias":
            ident[e["r"]] = ident[e["x"]]
        elif a == "grad":
            ident[e["r"]] = -fresh        # the gradient itself: it may accumulate
        elif a == "inplace":
            ident[e["x"]] = fresh
        elif a == "fill":
            old = ident[e["x"]]
            ident = {k: (fresh if v == old else v) for k, v in ident.items()}
        elif a == "drop":
            ident.pop(e["x"], None)
        out.append({q: ident[q] for q in e["live"]})
    return out


def judge_run(log, o, base, tag):
    """Message or None; consumes the observations of one run."""
    vals, p = {}, 0
    for i, (e, ids) in enumerate(zip(log, marks(log))):
        m = next_(o)
        if m is None:
            return f"{tag}: stopped at action {i + 1}"
        for g in e["free"]:
            if m[2][g - 1] > base[g - 1]:
                return f"{tag}, after {show(log[:i + 1])}: {m[2][g - 1] - base[g - 1]} block(s) of class {g} are live although nothing of the class is reachable"
        if m[2][-1] > base[-1]:
            return f"{tag}, after {show(log[:i + 1])}: a block was returned twice"
        for q in sorted(e["live"]):
            c = next_(o)
            if c is None:
                return f"{tag}: stopped at action {i + 1}"
            k = ids[q]
            if k > 0 and vals.setdefault(k, c[2]) != c[2]:
                return f"{tag}, after {show(log[:i + 1])}: the live value of r{q} changed"
    m = next_(o)
    if m is None:
        return f"{tag}: stopped at the end"
    if m[2][:-2] != base[:-2]:
        return f"{tag}: {m[2][:-2]} blocks live after everything was dropped, {base[:-2]} before"
    return m[2]


def next_(o):
    return o.pop(0) if o else None


def show(log):
    f = {"leaf": lambda e: f"r{e['r']}=leaf(class {e['g']}{', rg' if e['rg'] else ''})", "un": lambda e: f"r{e['r']}={e['op']}(r{e['x']})", "bin": lambda e: f"r{e['r']}={e['op']}(r{e['x']},r{e['y']})",
         "cross": lambda e: f"r{e['r']}=r{e['x']}*sum(r{e['y']})", "inplace": lambda e: f"r{e['x']}+=r{e['y']}"}
    return "; ".join(f[e["a"]](e) if e["a"] in f else f"{e['a']}(r{e['r'] or ''},r{e['x'] or ''})" for e in log)


def run(ck):
    th = ck.thorough
    exe = B.build("rel", targets=("memdrv",))["memdrv"]
    for n, h in ((4, 2), (3, 3)) if not th else ((5, 2), (4, 3)):
        ck.count(run_tlc("RefCount", {"NVal": n, "NHandle": h, "Hazard": False}, ["KeepsLive", "NoLeak"], spec="Spec"))
    r = run_tlc("RefCount", {"NVal": 3, "NHandle": 2, "Hazard": True}, ["KeepsLive", "NoLeak"], spec="Spec", expect_ok=False)
    assert not r.ok, "the hazard of keeping a later value must show as a leak"
    un = set(UN)
    logs = []
    r = run_tlc("Lifetimes", {"NClass": 1, "NReg": 2, "Steps": 4 if not th else 5, "Unary": {"relu"}, "Binary": {"mul"}, "Sampled": False}, ["Acyclic", "Emit"], spec="Spec")
    ck.count(r)
    logs += [x["log"] for x in r.records]
    ex = len(logs)
    for nc, nr, steps, num in ((2, 3, 12, 250), (3, 4, 24, 120), (4, 6, 60, 25)) if not th else ((2, 3, 12, 2500), (3, 4, 24, 1200), (4, 6, 60, 300), (4, 8, 150, 60)):
        r = run_tlc("Lifetimes", {"NClass": nc, "NReg": nr, "Steps": steps, "Unary": un, "Binary": {"add", "sub", "mul", "div"}, "Sampled": True}, ["Acyclic", "Emit"], spec="Spec", mode="sim", num=num, depth=steps + 2, seed=ck.seed)
        ck.count(r)
        logs += [x["log"] for x in r.records]
    if not th and ex > 6000:
        logs = [l for i, l in enumerate(logs) if i >= ex or i % (ex // 6000 + 1) == 0]
    for l in logs:
        for e in l:
            e["free"], e["live"] = sorted(e["free"]), sorted(e["live"])
    jobs = []
    for i, log in enumerate(logs):
        L = [f"MEMC {0 if i % 4 else 1}"] if i % 4 else []
        one = lines(log, 0)
        jobs.append((str(i), L + ["T w f32 1 3 1,2,3", "O sum w w", "B w", "DA", f"MEM {RANGES}"] + one + one + one))
    res = run_driver(exe, jobs)
    for i, log in enumerate(logs):
        st, obs = res[str(i)]
        ck.traces += 1
        o = parse(obs)
        cached = i % 4 == 0
        m = None
        first = next_(o)
        if first is None:
            m = "stopped at the start"
        else:
            base = first[2]
            log_ = [dict(e, free=[]) for e in log] if cached else log
            ends = []
            for k in ("first run", "second run", "third run"):
                m = judge_run(log_, o, base, k)
                if not isinstance(m, list):
                    break
                ends.append(m)
                m = None
            if m is None and ends[2][-2] > ends[1][-2]:
                m = f"every run leaves memory behind: {ends[1][-2]} blocks live after the second, {ends[2][-2]} after the third run"
        if m is None and st != 0:
            m = f"terminated abnormally ({st})"
        if m:
            ck.violation("A06:" + ("chain" if "chain" in m else "leak"), f"{show(log)}: {m}", {"log": log, "script": jobs[i][1], "observed": obs[-20:], "status": str(st)})
        else:
            ck.sample({"history": show(log)})
    ck.sets["histories"] = len(logs)
    deep(ck, exe)


def deep(ck, exe):
    """Long chains: releasing them must not depend on the depth."""
    jobs = []
    for n in ((1000, 30000, 150000) if not ck.thorough else (1000, 10000, 30000, 100000, 200000, 1000000)):
        for back in (0, 1):
            for how in ("drop", "inplace") if n < 50000 else ("drop",):
                L = ["MEMC 0", "T a f32 1 2 1,2", "CHAIN r a 10", "O sum s r", "B s", "CK a", "DA", "MEM 8-12", f"T a f32 1 2 1,2", f"CHAIN r a {n}", "CK a"] + (["O sum s r", "B s", "D s"] if back else []) + (["D r"] if how == "drop" else ["T z f32 0 2 5,6", "O alias r z", "D z", "D r"]) + ["CK a", "DA", "MEM 8-12"]
                jobs.append((f"{n}.{back}.{how}", L))
    res = run_driver(exe, jobs)
    for cid, L in jobs:
        st, obs = res[cid]
        ck.traces += 1
        o = parse(obs)
        m = None
        if st != 0 or len(o) != 5:
            m = f"terminated abnormally ({st}) after {len(o)} of 5 observations"
        elif o[2][2] != o[3][2]:
            m = "the leaf's value changed"
        elif o[4][2][-1] > o[1][2][-1] or o[4][2][-2] > o[1][2][-2] + 4:
            m = f"{o[4][2]} blocks live at the end, {o[1][2]} at the start"
        if m:
            ck.violation("A06:deep", f"a chain of {cid.split('.')[0]} recorded operations ({'after' if '.1.' in cid else 'without'} backward), dropped: {m}", {"script": L, "status": str(st), "observed": obs})
