from cases import *
from terms import evrec
from v03 import FLT, shapes, shset

INFV = 1000000


def lanes(t, d):
    """Lists along 1-based dimension d, in row-major order of the other coordinates."""
    s = t["s"]
    inner = 1
    for x in s[d:]:
        inner *= x
    n = s[d - 1]
    outer = 1
    for x in s[:d - 1]:
        outer *= x
    return [[t["d"][(o * n + i) * inner + j] for i in range(n)] for o in range(outer) for j in range(inner)]


def select_ok(q, v, ix, want, ordered):
    """SortCases!SelectOk against the specified (ordered) values."""
    if len(set(ix)) != len(ix):
        return "an index is used twice"
    for a, b in zip(v, ix):
        if not 0 <= b < len(q) or fnum(q[int(b)]) != fnum(a):
            return f"index {b} does not select value {a}"
    a, b = [fnum(x) for x in v], [fnum(x) for x in want]
    if ordered and a != b:
        return "values are not the requested ones in order"
    if sorted(a) != sorted(b):
        return "values are not the requested ones"
    return None


def run(ck):
    exe = B.build("rel")["ttdrv"]
    inv = ["TypeOK", "Consistent", "CumLaw", "Emit"]
    allf = {"sort", "topk", "cumsum"}
    plans = [(shapes((1, 2), (1, 2, 3), 9) + [[5], [7], [17], [2, 5]], allf), (shapes((3,), (1, 2, 3), 12), allf),
             ([[2, 1, 3, 2], [1, 2, 2, 2], [2, 2, 1, 1, 2], [1, 2, 1, 2, 1, 2]], allf), ([[40], [3, 20], [33, 2]], allf),
             ([[2, 500], [1040]], {"cumsum"} if not ck.thorough else {"cumsum", "sort"})]
    if ck.thorough:
        plans += [(shapes((2, 3), (1, 4, 5), 40), allf), (shapes((4,), (1, 2, 3), 24), {"sort", "topk"})]
    recs = []
    for sh, fams in plans:
        r = run_tlc("SortCases", {"Sh": shset(sh), "Fams": fams}, inv)
        ck.count(r)
        recs += r.records
    ck.sets["calls_specified"] = len(recs)
    jobs, meta = [], {}
    for i, c in enumerate(recs):
        h = i + ck.seed
        cls = c["cls"]
        dts = FLT if cls == "inf" else FLT + ["i32", "i64"] if cls == "sum" else FLT + ["i32", "i64", "b"]
        if not ck.thorough:
            dts = [dts[h % len(dts)]] + (["f32"] if h % 2 and h % len(dts) else [])
        for k, dt in enumerate(dts):
            if dt in ("bf16", "f16") and max([abs(x) for t in (c["ins"][0], c["exp"][0]) for x in t["d"] if abs(x) != INFV] + [0]) > 256:  # not exact there
                dt = "f32"
            x = dict(c)
            sub = lambda t: {"s": t["s"], "d": [float("inf") if v == INFV else float("-inf") if v == -INFV else v for v in t["d"]]}
            if dt == "b" and cls == "ord":   # order of truth values: computed on the converted operand
                x = dict(c, ins=[{"s": c["ins"][0]["s"], "d": [v & 1 for v in c["ins"][0]["d"]]}])
            else:
                x["ins"], x["exp"] = [sub(t) for t in c["ins"]], [sub(t) for t in c["exp"]]
            lay = [0, 2, 3, 1][h % 4]
            cid = f"{i}/{dt}/{lay}/{k}"
            jobs.append((cid, script(x, dt, lay)))
            meta[cid] = (x, dt, lay)
    res = run_driver(exe, jobs)
    for cid, L in jobs:
        c, dt, lay = meta[cid]
        st, obs = res[cid]
        ck.traces += 1
        m = None
        if c["op"] == "cumsum":
            m = judge(dict(c, boolmap=False, tol=0), dt, st, obs)
        elif st != 0:
            m = f"terminated abnormally ({st})"
        else:
            o = parse(obs)
            v, ix, src = o[0][2], o[1][2], o[2][2]
            t = c["ins"][0]
            if dt == "b":
                for y in (v, src):
                    y["d"] = [1 if z else 0 for z in y["d"]]
            if v.get("u") or v["s"] != c["exp"][0]["s"] or ix["s"] != c["exp"][1]["s"]:
                m = f"result shapes {v.get('s')} {ix.get('s')} specified {c['exp'][0]['s']}"
            elif v["t"] != dt or ix["t"] != "i64":
                m = f"result types {v['t']}, {ix['t']}"
            elif not same_tensor(t, src) or o[3][1] != "1":
                m = "the operand changed"
            else:
                desc = c["il"][1][0] == 1
                k = c["exp"][0]["s"][c["dim"] - 1]
                for q, a, b in zip(lanes(t, c["dim"]), lanes(v, c["dim"]), lanes(ix, c["dim"])):
                    want = sorted([fnum(z) for z in q], reverse=desc)[:k]
                    e = select_ok(q, a, b, want, c["ordered"])
                    if e:
                        m = f"{e}: from {q} got values {a} indices {b}"
                        break
                if not m and dt != "b" and c["ordered"] and not same_tensor(c["exp"][0], v):
                    m = f"specified values {c['exp'][0]} got {v}"
        if m:
            ck.violation(f"V05:{c['op']}", f"{c['op']} dtype={dt} layout={lay} shape={c['ins'][0]['s']} args={c['il']}: {m}", {"case": c, "script": L, "observed": obs, "status": str(st)})
        else:
            ck.sample({"op": c["op"], "dtype": dt, "shape": c["ins"][0]["s"], "args": c["il"], "values": c["exp"][0]["d"][:12]})
    multinomial(ck, exe)


def multinomial(ck, exe):
    ws = [[1], [0, 1], [2, 0, 1], [1, 1, 1], [0, 0, 3, 0, 1], [1, 2, 3, 4], [5, 0, 0, 1], [0, 1, 0, 1, 0], [1, 1, 1 << 25], [1 << 25, 2, 2], [1, 1 << 25, 0, 1]]
    r = run_tlc("Multinomial", {"Weights": Raw("{" + ",".join(tla(w) for w in ws) + "}"), "MaxK": 3}, ["OnlyPositive", "NoRepeat", "NeverStuck", "Emit"])
    ck.count(r)
    allowed = {}
    for x in r.records:
        allowed.setdefault((tuple(x["w"]), x["repl"], x["k"]), set()).add(tuple(x["drawn"]))
    ck.sets["multinomial_answers_specified"] = sum(len(v) for v in allowed.values())
    jobs, meta = [], {}
    reps = 400 if not ck.thorough else 2000
    dts = FLT + ["i32", "i64"]
    for n, ((w, repl, k), ok) in enumerate(sorted(allowed.items())):
        for b in (0, 1):
            dt = (dts if max(w) < 256 else ["f32", "i32", "bf16", "i64"])[(n + b + ck.seed) % (len(dts) if max(w) < 256 else 4)]
            L = [f"SEED {1000 * ck.seed + n}"]
            sh = [len(w)] if not b else [3, len(w)]
            L.append(f"T a {dt} 0 {csv(sh)} {csv(list(w) * (3 if b else 1))} {2 if n % 2 else 0}")
            for _ in range(reps // (3 if b else 1)):
                L += [f"O multinomial r a {k};{int(repl)}", "G r"]
            L.append("G a")
            jobs.append((f"m{n}.{b}", L))
            meta[f"m{n}.{b}"] = (w, repl, k, ok, b, dt)
    # a large urn, every category once without replacement
    jobs.append(("perm", ["SEED 7", f"T a f32 0 300 {csv([1 + i % 5 for i in range(300)])}", "O multinomial r a 300;0", "G r"]))
    res = run_driver(exe, jobs)
    for cid, L in jobs:
        st, obs = res[cid]
        ck.traces += 1
        if cid == "perm":
            d = parse(obs)[0][2]["d"] if st == 0 else None
            if st != 0 or sorted(d) != list(range(300)):
                ck.violation("V05:multinomial", "drawing all 300 categories without replacement is not a permutation", {"script": L, "observed": obs})
            continue
        w, repl, k, ok, b, dt = meta[cid]
        m = None
        seen = {}
        first = {}
        if st != 0:
            m = f"terminated abnormally ({st})"
        else:
            o = parse(obs)
            for t in o[:-1]:
                g = t[2]
                if g["s"] != ([3, k] if b else [k]) or g["t"] != "i64":
                    m = f"result shape {g['s']} type {g['t']}"
                    break
                for j in range(3 if b else 1):
                    row = tuple(int(x) for x in g["d"][j * k:(j + 1) * k])
                    seen[row] = seen.get(row, 0) + 1
                    first[row[0]] = first.get(row[0], 0) + 1
                    if row not in ok:
                        m = f"weights {list(w)} replacement={repl}: answer {list(row)} is not admissible"
            if not m and o[-1][2]["d"] != [float(x) for x in w] * (3 if b else 1):
                m = "the weights changed"
            if not m:
                tot = sum(first.values())
                # every answer whose probability makes missing it practically impossible must occur
                for row in ok:
                    p, u = 1.0, list(w)
                    for x in row:
                        p *= u[x] / sum(u)
                        if not repl:
                            u[x] = 0
                    if p * tot > 25 and row not in seen:
                        m = f"weights {list(w)} replacement={repl}: admissible answer {list(row)} never drawn in {tot} draws"
        if m:
            ck.violation("V05:multinomial", f"multinomial dtype={dt} k={k}: {m}", {"script": L[:6], "status": str(st)})
    ck.assumptions.append("an admissible multinomial answer expected more than 25 times in the run must occur (probability of a miss < 1e-10)")
