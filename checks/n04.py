from cases import *
import shutil, tempfile, hashlib

SIZE = {"f32": 4, "f16": 2, "bf16": 2, "i32": 4, "i64": 8, "b": 1}
SPECIAL = {4: [0x7fc12345, 0x80000000, 0xff800000, 1, 0x7f7fffff, 0xffffffff, 0x3f800000], 2: [0x7e01, 0x8000, 0xfc00, 1, 0x7bff, 0xffff, 0x3c00], 8: [-1, -(1 << 63), (1 << 63) - 1, 1 << 40, 0x0102030405060708, 5]}
DRVNAME = {"long": "q*1000", "empty": "''"}


def bits(c, name, t, n):
    """Bit patterns of a content token: every pattern is possible, special values included."""
    h = hashlib.sha1(f"{c}/{name}/{t}".encode()).digest()
    out = []
    for i in range(n):
        x = int.from_bytes(hashlib.sha1(h + bytes([i & 255, i >> 8])).digest()[:8], "little")
        k = SIZE[t]
        if t == "b":
            out.append(x & 1)
        elif x % 3 == 0:
            out.append(SPECIAL[k][x // 3 % len(SPECIAL[k])])
        else:
            v = x & ((1 << (8 * k)) - 1)
            out.append(v - (1 << 64) if k == 8 and v >= 1 << 63 else v)
        if t == "i32" and out[-1] >= 1 << 31:
            out[-1] -= 1 << 32
    return out


def model_lines(m, base, f, rev):
    """Creates model m (ids base, base+1..) with the states of f; dotted names go to children."""
    L = [f"MH {base} 0 -"]
    order = sorted(f, reverse=rev)
    kids, where = {}, {}
    for x in order:
        mod, name = base, x
        if "." in x:
            ch, name = x.rsplit(".", 1)
            for i, part in enumerate(ch.split(".")):
                key = ".".join(ch.split(".")[:i + 1])
                if key not in kids:
                    kids[key] = base + len(kids) + 1
                    L.append(f"MH {kids[key]} {mod} {part}")
                mod = kids[key]
        n = math.prod(f[x]["s"])
        L.append(f"TB t {f[x]['t']} {csv(f[x]['s'])} {csv(bits(f[x]['c'], x, f[x]['t'], n))}")
        if f[x]["t"] == "f32" and len(x) % 2 == 1:
            L.append("RG t 1")
        idx = sum(1 for y in where.values() if y[0] == mod)
        L.append(f"MHS {mod} {DRVNAME.get(name, name)} t")
        where[x] = (mod, idx)
    for x, (mod, idx) in where.items():   # a handle to look through, and a copy that shares its memory
        L += [f"MHR {mod} {idx} {m}.{order.index(x)}", f"O clone {m}w.{order.index(x)} {m}.{order.index(x)} - -"]
    return L, order


def go(ck, exe, recs, scratch):
    jobs, meta = [], []
    for i, r in enumerate(recs):
        rev = (i + ck.seed) % 2 == 1
        fn = f"{scratch}/{i}.bin"
        la, oa = model_lines("A", 100, r["a"]["A"], False)
        lb, ob = model_lines("B", 200, r["a"]["B"], rev)
        L, E = la + lb, []

        def look(see, label):
            for m, o in (("A", oa), ("B", ob)):
                for j, x in enumerate(o):
                    e = see[m][x]
                    L.append(f"GB {m}.{j}")
                    E.append((label, f"state '{x}' of model {m}", [e["t"]] + bits(e["c"], x, e["t"], math.prod(e["s"]))))
        for k, e in enumerate(r["log"]):
            if e["k"] == "save":
                L.append(f"SAVE {100 if e['m'] == 'A' else 200} {fn}")
            elif e["k"] == "savebad":
                L.append(f"SAVE {100 if e['m'] == 'A' else 200} {scratch}/no/such/dir/x.bin")
            elif e["k"] == "load":
                L.append(f"LOAD {100 if e['m'] == 'A' else 200} {fn} {1 if e['strict'] else 0}")
            else:
                for j, x in enumerate(oa if e["m"] == "A" else ob):
                    s = e["see"][e["m"]][x]
                    L.append(f"MBITS {e['m']}.{j} {csv(bits(s['c'], x, s['t'], math.prod(s['s'])))}")
            lab = f"action {k + 1} ({e['k']} {e['m']}{' strict' if e['strict'] else ''})"
            if e["k"] != "scribble":
                E.append((lab, "result", int(e["ok"])))
            look(e["see"], lab)
        for m, o in (("A", oa), ("B", ob)):   # tensors outside the models
            for j, x in enumerate(o):
                e = r["a"][m][x]
                L.append(f"GB {m}w.{j}")
                E.append(("end", f"the copy of '{x}' of model {m} made before", [e["t"]] + bits(e["c"], x, e["t"], math.prod(e["s"]))))
        jobs.append((str(i), L))
        meta.append(E)
    res = run_driver(exe, jobs)
    for i, r in enumerate(recs):
        st, obs = res[str(i)]
        ck.traces += 1
        o = parse(obs)
        m = None
        for k, (lab, what, want) in enumerate(meta[i]):
            if k >= len(o):
                m = ("abort", f"terminated abnormally ({st}) before {lab}")
                break
            g = o[k][2]
            g = int(g) if isinstance(g, str) else g
            if g != want:
                m = ("result" if what == "result" else "bits", f"{lab}: {what} is {str(g)[:200]}, specified {str(want)[:200]}")
                break
        hist = [(e["k"], e["m"], e["strict"], e["ok"]) for e in r["log"]]
        if m:
            desc = {q: {x: (tuple(v["s"]), v["t"]) for x, v in r["a"][q].items()} for q in "AB"}
            ck.violation(f"N04:{m[0]}", f"models {desc} history {hist}: {m[1]}", {"history": r, "script": jobs[i][1], "observed": obs[:50], "status": str(st)})
        else:
            ck.sample({"history": hist, "models": {q: sorted(r["a"][q]) for q in "AB"}})


def run(ck):
    exe = B.build("rel")["ttdrv"]
    scratch = tempfile.mkdtemp(prefix="n04-", dir=B.BUILD)
    V = Raw('LET T == {"f32", "i64"} IN T')
    th = ck.thorough
    try:
        recs = []

        def mod(names, shapes, types, pairs, n, k, sim=None, acts=()):
            kw = dict(mode="sim", num=sim, depth=n + 2, seed=ck.seed + k) if sim else {}
            r = run_tlc("StateFiles", {"Names": set(names), "Shapes": Raw("{" + ", ".join(tla(tuple(s)) for s in shapes) + "}"), "Types": set(types), "MaxLog": n, "MaxStates": k, "Acts": set(acts), "Pairs": Raw(pairs)},
                        ["Emit"], spec="Spec", properties=() if sim else ("RoundTrip", "Keeps"), **kw)
            ck.count(r)
            recs.extend(r.records)
        # same structure: every element type, shape and odd name
        mod({"w", "b"}, [[], [3], [2, 0], [2, 3], [1, 2, 1, 2]], ["f32", "f16", "bf16", "i32", "i64", "b"], "{<<f, f>> : f \\in Structs}", 4 if th else 3, 1)
        mod({"w", "n.w", "n.m.b", "long", "empty"}, [[2], [2, 2]], ["f32"], "{<<f, f>> : f \\in Structs}", 3, 4 if th else 3, acts=("bad",))
        # every single difference between file and model
        mod({"w", "n.w", "b"}, [[4], [2, 2], [4, 1]], ["f32", "i32", "f16"] if th else ["f32", "i32"], "{<<f, g>> : f \\in {x \\in Structs : Cardinality({x[y] : y \\in DOMAIN x}) <= 1}, g \\in UNION {{}} } \\cup UNION {{<<f, g>> : g \\in Variants(f)} : f \\in {x \\in Structs : Cardinality({x[y] : y \\in DOMAIN x}) <= 1}}", 3, 2)
        # combined differences, longer histories
        mod({"w", "n.w", "b", "n.b", "k.w"}, [[4], [2, 2], [], [3, 0]], ["f32", "i32", "f16", "bf16"], "UNION {UNION {{<<f, h>> : h \\in Variants(g)} : g \\in Variants(f)} : f \\in {[w |-> St(<<4>>, \"f32\"), b |-> St(<<2, 2>>, \"i32\")], (\"w\" :> St(<<>>, \"bf16\")) @@ (\"n.w\" :> St(<<4>>, \"f16\")) @@ (\"b\" :> St(<<2, 2>>, \"f32\"))}}", 7, 3, sim=800 if th else 120, acts=("bad",))
        cap = 60000 if th else 9000
        if len(recs) > cap:
            recs = [recs[i * len(recs) // cap] for i in range(cap)]
        go(ck, exe, recs, scratch)
        ck.sets["histories"] = len(recs)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ck.assumptions += ["state paths of a model are distinct"]
