from cases import *
import shutil, struct, tempfile
from n04 import bits, SIZE

DT = ["f32", "f16", "bf16", "i32", "i64", "b"]


def packed(vals, t):
    k = SIZE[t]
    return b"".join((v & ((1 << (8 * k)) - 1)).to_bytes(k, "little") for v in vals)


def unpacked(raw, t):
    k = SIZE[t]
    out = []
    for i in range(0, len(raw), k):
        v = int.from_bytes(raw[i:i + k], "little")
        out.append(v - (1 << (8 * k)) if t in ("i32", "i64") and v >= 1 << (8 * k - 1) else v)
    return out


def value(how, old, size):
    m = 1 << 64
    return {"zero": 0, "one": 1, "plus1": old + 1, "minus1": (old - 1) % m, "double": 2 * old % m, "max": m - 1, "min63": 1 << 63, "plus32": (old + (1 << 32)) % m, "plus40": (old + (1 << 40)) % m,
            "size": size, "size+1": size + 1, "negsmall": m - 16, "neg8": (old - 8) % m}[how]


def damaged(case, good):
    """The bytes of the damaged file, or None if the damage changes nothing."""
    b = bytearray(good)
    k = case["k"]
    if k == "cut":
        return bytes(b[:case["at"]])
    if k == "more":
        return bytes(b) + bytes(case["at"])
    if k == "data":
        b[case["at"]] ^= 1
        return bytes(b)
    if k == "whole":
        return bytes(b)
    if k == "empty":
        return b""
    if k == "byte":
        f = case["edits"][0]["f"]
        if case["at"] >= f["len"]:
            return None
        b[f["off"] + case["at"]] ^= 1 << (case["at"] % 8)
    elif k == "copy":
        f, g = case["edits"][0]["f"], case["edits"][1]["f"]
        b[f["off"]:f["off"] + 8] = good[g["off"]:g["off"] + 8]
    elif k == "edit":
        for e in case["edits"]:
            f = e["f"]
            old = int.from_bytes(good[f["off"]:f["off"] + 8], "little")
            b[f["off"]:f["off"] + 8] = value(e["v"], old, len(good)).to_bytes(8, "little")
    return None if bytes(b) == good else bytes(b)


def make(states, token):
    """Lines creating model 1 with the given states and contents."""
    L = ["MH 1 0 -"]
    for n, s, t in states:
        L += [f"TB t {t} {csv(s)} {csv(bits(token, n, t, math.prod(s)))}", f"MHS 1 {n or chr(39) * 2} t"]
    for i in range(len(states)):
        L.append(f"MHR 1 {i} A{i}")
    return L


def layout_of(states):
    """The file as the specification lays it out."""
    head, data = struct.pack("<QQQ", 0x54494E59, 1, len(states)), b""
    return head, data


def run(ck):
    th = ck.thorough
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0", UBSAN_OPTIONS="print_stacktrace=0")
    exe = B.build("asan")["ttdrv"]
    M = lambda l: Raw("<<" + ", ".join(f"[name |-> {tla(tuple(n))}, dims |-> {tla(tuple(d))}]" for n, d in l) + ">>")
    for model, v, dmg in ([([((2,), (2,)), ((), ())], 9, 2), ([((2,), (1, 2))], 12, 2), ([((2,), ()), ((3,), ())], 3, 2)] if not th else [([((2,), (2,)), ((), ())], 24, 2), ([((2,), (1, 2))], 6, 3), ([((2,), ()), ((3,), ())], 5, 3), ([((1,), (0, 3)), ((2,), (2,)), ((0,), ())], 12, 2)]):
        r = run_tlc("FileReader", {"V": v, "MaxSize": 40, "Model": M(model), "Damaged": dmg}, ["InBounds", "AcceptsImages", "AllOrNothing"], spec="Spec")
        ck.count(r)
    r = run_tlc("FileReader", {"V": 4, "MaxSize": 20, "Model": M([((2,), (2,))]), "Damaged": 1}, ["InBounds", "AcceptsImages", "AllOrNothing"], spec="Spec", properties=("Finishes",))
    ck.count(r)
    structs = [([("w", (2, 3), "f32")], True), ([("weight", (2,), "f16"), ("b", (2, 2), "i64"), ("s", (), "bf16")], False), ([("a", (0, 2), "f32"), ("bb", (3,), "b"), ("cc", (3,), "b")], False),
               ([("big", (4023 - 2,), "b")], False)]
    if th:
        structs += [([("w", (2, 1, 3), "i32"), ("v", (6,), "f32")], True), ([("x" * 30, (5,), "bf16"), ("y", (1,), "i64"), ("z", (2, 2), "f32"), ("u", (), "f32")], False)]
    scratch = tempfile.mkdtemp(prefix="n05-", dir=B.BUILD)
    try:
        total = 0
        for si, (states, pairs) in enumerate(structs):
            S = Raw("<<" + ", ".join(f"[name |-> {len(n)}, dims |-> {tla(tuple(s))}, size |-> {SIZE[t]}]" for n, s, t in states) + ">>")
            r = run_tlc("FileDamage", {"Structure": S, "Pairs": pairs}, ["FieldsDisjoint", "Covered", "InHeader", "Emit"])
            ck.count(r)
            recs = r.records
            size, dstart = recs[0]["size"], recs[0]["data"]
            src = f"{scratch}/good{si}.bin"
            res = run_driver(exe, [("save", make(states, "saved") + [f"SAVE 1 {src}"])], env=env)
            ck.traces += 1
            if res["save"][0] != 0 or parse(res["save"][1])[0][2] != 1 or not os.path.exists(src):
                ck.violation("N05:save", f"saving {states} failed: {res['save']}", {"states": states})
                continue
            good = open(src, "rb").read()
            data = b"".join(packed(bits("saved", n, t, math.prod(s)), t) for n, s, t in states)
            known = len(good) == size and good[dstart:] == data
            if not known:   # another file format: only damage that needs no layout
                recs = [x for x in recs if x["case"]["k"] in ("missing", "directory", "empty", "whole")] + [{"case": {"k": "cut", "at": n, "edits": [], "outcome": "refuse"}} for n in range(len(good))]
                ck.assumptions.append("the file format differs from the specified layout: field damage not tried")
            if not th and size > 1000:
                keep = set(range(0, dstart + 40)) | {size - 1, size - 2, 2048, 4095} | set(range(dstart, size, 211))
                recs = [x for x in recs if x["case"]["k"] not in ("cut", "data") or x["case"]["at"] in keep]
            cap = 2500 if not th else 10 ** 6
            two = [x for x in recs if len(x["case"]["edits"]) == 2]
            if len(two) > cap:
                sel = {id(two[i * len(two) // cap]) for i in range(cap)}
                recs = [x for x in recs if len(x["case"]["edits"]) < 2 or id(x) in sel]
            jobs, meta = [], []
            for i, x in enumerate(recs):
                c = x["case"]
                fn = f"{scratch}/d{i % 64}_{i}.bin"
                if c["k"] == "missing":
                    fn = f"{scratch}/none.bin"
                elif c["k"] == "directory":
                    fn = scratch
                else:
                    b = damaged(c, good)
                    if b is None:
                        continue
                    with open(fn, "wb") as fh:
                        fh.write(b)
                    c["bytes"] = b
                L = make(states, "before")
                for strict in (1, 0):
                    L.append(f"LOAD 1 {fn} {strict}")
                    L += [f"GB A{j}" for j in range(len(states))]
                jobs.append((str(i), L))
                meta.append((i, c))
            res = run_driver(exe, jobs, env=env)
            for i, c in meta:
                st, obs = res[str(i)]
                ck.traces += 1
                total += 1
                o = parse(obs)
                before = [[t] + bits("before", n, t, math.prod(s)) for n, s, t in states]
                after = before
                if c["k"] in ("data", "whole") or (c["k"] == "more"):
                    off, after = dstart, []
                    for n, s, t in states:
                        ln = math.prod(s) * SIZE[t]
                        after.append([t] + unpacked(c["bytes"][off:off + ln], t))
                        off += ln
                cur, m, p = before, None, 0
                for strict in (1, 0):
                    if p + len(states) >= len(o):
                        m = f"terminated abnormally ({st}) in a {'strict' if strict else 'lenient'} load"
                        break
                    ok = o[p][2] == 1
                    got = [x[2] for x in o[p + 1:p + 1 + len(states)]]
                    p += 1 + len(states)
                    want = {"refuse": False, "accept": True, "any": ok, "renamed": False if strict else ok}[c["outcome"]]
                    w = "strict" if strict else "lenient"
                    if ok != want:
                        m = f"a {w} load reports {'success' if ok else 'failure'}, specified {'success' if want else 'failure'}"
                    elif not ok and got != cur:
                        m = f"a {w} load that reports failure changed the model: {str(got)[:200]}"
                    elif ok and c["outcome"] in ("accept", "any") and got != after:
                        m = f"a {w} load left {str(got)[:200]}, the file holds {str(after)[:200]}"
                    if m:
                        break
                    cur = got
                if m is None and st != 0:
                    m = f"terminated abnormally ({st})"
                desc = f"{c['k']} at {c['at']} " + " ".join(f"{e['f']['what']}@{e['f']['off']}:{e['v']}" for e in c["edits"])
                if m:
                    ck.violation(f"N05:{c['k']}:{c['edits'][0]['f']['what'] if c['edits'] else ''}", f"file of {states}, damage {desc}: {m}", {"states": states, "damage": {k: v for k, v in c.items() if k != 'bytes'}, "file_hex": c.get("bytes", b"").hex()[:4000], "observed": obs[:10], "status": str(st)})
                else:
                    ck.sample({"states": [list(x) for x in states], "damage": desc, "outcome": c["outcome"]})
            for f in os.listdir(scratch):
                if f.startswith("d"):
                    os.unlink(os.path.join(scratch, f))
        ck.sets["damaged_files"] = total
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ck.assumptions += ["a byte of a state's name changed makes another name: a lenient load may then succeed without that state", "bytes appended after the data may be refused or ignored", "out-of-bounds reads of the mapped file show as a crash only past the file's last page; otherwise through the result"]
