from cases import *
import struct

WIDTH = {"f16": 15, "bf16": 15, "f32": 31}
INFM = {"f16": 0x7c00, "bf16": 0x7f80, "f32": 0x7f800000}


def raw(kind, p):
    if kind in WIDTH:
        s, m = p
        return (s << WIDTH[kind]) | m
    if kind == "b":
        return p if isinstance(p, int) else p[1]
    s, m, x = p
    return (-1 if s else 1) * (m << x)


def bad(kind, want, got):
    if kind in WIDTH:
        if want[1] == -1:
            return (got & ((1 << WIDTH[kind]) - 1)) <= INFM[kind]
        return got != raw(kind, want)
    if kind == "b":
        return got != want
    return got != raw(kind, want)


def val(kind, r):
    if kind == "f32":
        return struct.unpack("<f", struct.pack("<I", r))[0]
    if kind == "f16":
        return struct.unpack("<e", struct.pack("<H", r))[0]
    if kind == "bf16":
        return struct.unpack("<f", struct.pack("<I", r << 16))[0]
    return r


def run(ck):
    exe = B.build("rel")["ttdrv"]
    recs = []
    for fams, blocks in (({"f16", "bf16", "to16", "tobf16"}, "0..255"), ({"misc"}, "{0}")):
        r = run_tlc("FloatCases", {"Fams": fams, "Blocks": Raw(blocks)}, ["RoundTrip", "TieLaw", "SameLength", "Emit"])
        ck.count(r)
        recs += r.records
    jobs, meta = [], {}
    recs = [c for c in recs if c["src"]]
    n = 0
    for i, c in enumerate(recs):
        src = [raw(c["from"], p) & ((1 << 32) - 1 if c["from"] == "f32" else -1) for p in c["src"]]
        shape = [len(src)]
        if len(src) % 4 == 0:
            shape = [[len(src)], [len(src) // 4, 4], [2, len(src) // 4, 2]][i % 3]
        L = [f"TB a {c['from']} {csv(shape)} {csv(src)}", f"O to r a - - {c['to']}", "GB r", "GB a", "G r"]
        jobs.append((str(i), L))
        meta[str(i)] = (c, src, shape)
        n += len(src)
    # the same meaning for single values: filling from a scalar of another type
    fs = {}
    for i, c in enumerate(recs):
        if c["from"] == c["to"]:
            continue
        k = (i * 37 + ck.seed) % len(c["src"])
        for k in {k, 0, len(c["src"]) - 1, len(c["src"]) // 2}:
            v = val(c["from"], raw(c["from"], c["src"][k]))
            if isinstance(v, float) and v != v or isinstance(v, int) and abs(v) > 2 ** 52:
                continue
            cid = f"s{i}.{k}"
            jobs.append((cid, [f"FS r {c['to']} {c['from']} {v!r}", "GB r"]))
            fs[cid] = (c, k, v)
    ck.sets["element_conversions_specified"] = n
    ck.sets["scalar_conversions_specified"] = len(fs)
    res = run_driver(exe, jobs)
    for cid, L in jobs:
        st, obs = res[cid]
        ck.traces += 1
        if cid in fs:
            c, k, v = fs[cid]
            o = parse(obs)[0][2] if st == 0 else None
            if st != 0 or o[0] != c["to"] or any(bad(c["to"], c["exp"][k], g) for g in o[1:]):
                ck.violation(f"V07:scalar:{c['from']}:{c['to']}", f"filling a {c['to']} tensor with the {c['from']} value {v!r}: got {o or st}, specified {c['exp'][k]}", {"script": L, "observed": obs})
            continue
        c, src, shape = meta[cid]
        m = None
        if st != 0:
            m = f"terminated abnormally ({st})"
        else:
            o = parse(obs)
            r, a = o[0][2], o[1][2]
            if r[0] != c["to"]:
                m = f"result has element type {r[0]}"
            elif o[2][2]["s"] != shape or len(r) - 1 != len(src):
                m = f"shape changed from {shape} to {o[2][2]['s']}"
            elif a[1:] != src:
                m = "the source changed"
            else:
                for s, e, g in zip(src, c["exp"], r[1:]):
                    if bad(c["to"], e, g):
                        m = f"pattern {s:#x} ({val(c['from'], s)!r}) became {g:#x}, specified {e} = {raw(c['to'], e) if not (isinstance(e, list) and e[1] == -1) else 'NaN'}"
                        break
        if m:
            ck.violation(f"V07:{c['from']}:{c['to']}", f"{c['from']} -> {c['to']}: {m}", {"script": [l[:3000] for l in L], "status": str(st)})
        else:
            ck.sample({"from": c["from"], "to": c["to"], "n": len(src), "first": src[:3], "specified": c["exp"][:3]})
    ck.assumptions += ["conversions of not-a-number or out-of-range values to integers are not specified", "integers beyond 24 significant bits are only converted to Float32 (the 16-bit targets go through Float32)"]
