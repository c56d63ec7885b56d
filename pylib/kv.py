"""Scripts, runs and histories of the key-value stores (S01-S04)."""
import concurrent.futures
import json
from vt import run_tlc, run_driver, ModelError
import build as B

ABSENT, EMPTY, TEXT = 99999, 90000, 100000
SLACK, FSLACK = 1500, 500
# numbers too large for the specification's arithmetic: those around one of these are written as their distance from it
LARGE = [10**7, 10**12, 10**15, 4 * 10**18, -10**6, -10**12, -4 * 10**18]


def number(n):
    for i, b in enumerate(LARGE):
        if abs(n - b) <= 1000:
            return 50000 + 3000 * i + n - b
    return n if abs(n) < 45000 else None


class Codec:
    """values <-> the codes of the specification"""

    def __init__(self):
        self.known = {}

    def code(self, s):
        if s == "-":
            return EMPTY
        t = s[3:] if s.startswith("%2D") else s
        neg = s.startswith("%2D") or (s.startswith("-") and len(s) > 1)
        d = s[3:] if s.startswith("%2D") else (s[1:] if neg else s)
        if d.isdigit() and len(d) < 20 and (d == "0" or d[0] != "0"):
            n = number(-int(d) if neg else int(d))
            if n is not None:
                return n
        return self.known.setdefault(s, TEXT + len(self.known))


def dec(s):
    if s == "-":
        return b""
    r = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "%":
            r.append(int(s[i + 1:i + 3], 16)); i += 3
        elif s[i] == "*":
            _e, n, seed = s[i:].split("*")
            x = int(seed)
            for _ in range(int(n)):
                x = (x * 1664525 + 1013904223) % 2**32
                r.append(x >> 24)
            return bytes(r)
        else:
            r.append(ord(s[i])); i += 1
    return bytes(r)


_hash = {}


def enc(s):
    """what the driver prints for the value the script writes as s"""
    if s in _hash:
        return _hash[s]
    b = dec(s)
    if not b:
        o = "-"
    elif len(b) > 24:
        h = 1469598103934665603
        for c in b:
            h = ((h ^ c) * 1099511628211) % 2**64
        o = f"#{len(b)}:{h}"
    else:
        o = "".join(chr(c) if chr(c).isalnum() and c < 128 or (c == 45 and len(b) > 1) else "%%%02X" % c for c in b)
    _hash[s] = o
    return o


def trace(obs, cd, keynames, tmo, nworkers, file):
    """driver observations -> (trace record, outcome).  tmo: per worker or one value; scripts may change it"""
    keyno = {}

    def kn(s):
        b = dec(s)
        return keyno.setdefault(b, len(keyno) + 1)
    for k in keynames:
        kn(k)
    ev, how, server, lastop = [], None, set(), {}
    for o in obs:
        w = o if isinstance(o, list) else o.split()
        if w[0] == "H":
            tm = int(w[1])
            if w[3] == "kill":
                ev.append(dict(k="kill", w=int(w[4]) + 1, t=tm, op="", ks=[], v=0, tmo=0, r=0))
                continue
            wk = int(w[4])
            T = tmo[wk] if isinstance(tmo, (list, tuple)) else tmo
            if w[3] == "call":
                op, a = w[6], w[7:]
                e = dict(k="call", w=wk + 1, t=tm, op=op, ks=[], v=0, tmo=T, r=0)
                if op in ("sets", "gets"):
                    e["op"] = op[:-1]
                if op in ("set", "sets"):
                    e["ks"] = [kn(a[0])]; e["v"] = cd.code(enc(a[1]))
                elif op == "add":
                    e["ks"] = [kn(a[0])]; e["v"] = number(int(a[1]))
                elif op in ("get", "gets", "del"):
                    e["ks"] = [kn(a[0])]
                elif op in ("chk", "wait"):
                    e["ks"] = [] if a[0] == "=" else sorted({kn(x) for x in a[0].split(";")})
                elif op == "serve":
                    e["v"] = int(a[0])
                    if not server:
                        server.add(wk)
                elif op == "close":
                    e["v"] = 1 if wk in server else 0
                lastop[wk] = e["op"]
                ev.append(e)
            elif w[3] == "ret":
                r = w[6]
                if r == "none":
                    raise ModelError("script used a store that is not open")
                op = lastop[wk]
                rv = 0 if r == "ok" else cd.code(r) if op == "get" else number(int(r))
                if rv is None:
                    rv = 2**30
                ev.append(dict(k="ret", w=wk + 1, t=tm, op="", ks=[], v=0, tmo=0, r=rv))
        elif w[0] == "R":
            how = w[1:]
    if how is None:
        return None, None
    # nothing can run any more: time goes on for ever
    end = 1999999999 if how[0] == "stuck" else int(how[1])
    ev.append(dict(k="end", w=1, t=end, op="", ks=[], v=0, tmo=0, r=0))
    return dict(workers=nworkers, keys=max(1, len(keyno)), ev=ev), how


def validate(traces, file, ck=None, chunk=80):
    """indices of the traces the specification does not accept (identical traces judged once)"""
    uniq, order = {}, []
    for n, t in enumerate(traces):
        k = json.dumps(t, sort_keys=True)
        if k not in uniq:
            uniq[k] = []
            order.append(k)
        uniq[k].append(n)
    fake = json.dumps(corrupt(json.loads(order[0])))

    def one(c):
        part = order[c:c + chunk]
        lines = part + [fake]
        r = run_tlc("KVTrace", dict(File=file, Slack=FSLACK if file else SLACK), ["Report"], spec="Spec", workers=2, heap="3g",
                    files={"traces.ndjson": "\n".join(lines) + "\n"})
        ok = {x["ok"] for x in r.records if "ok" in x}
        if len(lines) in ok:
            raise ModelError("a corrupted history was accepted")
        return r, [n for i in range(len(part)) if i + 1 not in ok for n in uniq[part[i]]]
    bad = []
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for r, b in ex.map(one, range(0, len(order), chunk)):
            bad += b
            if ck:
                ck.count(r)
    return sorted(bad), len(order)


def corrupt(t):
    """a set is never seen: the read that follows answers something nobody wrote"""
    t = json.loads(json.dumps(t))
    t["ev"] = ([dict(k="call", w=1, t=0, op="open", ks=[], v=0, tmo=0, r=0),
                dict(k="ret", w=1, t=0, op="", ks=[], v=0, tmo=0, r=0),
                dict(k="call", w=1, t=0, op="add", ks=[1], v=4, tmo=0, r=0),
                dict(k="ret", w=1, t=0, op="", ks=[], v=0, tmo=0, r=77777),
                dict(k="end", w=1, t=0, op="", ks=[], v=0, tmo=0, r=0)])
    return t


def schedules(kind, workers, steps=40, stride=1, num=50, seed=1, length=24, horizon=600):
    c = dict(Workers=workers, Steps=steps, Stride=stride, Kind=kind, Len2=length if kind != "pri" else min(length, 6), Horizon=horizon)
    if kind.startswith("seg"):
        r = run_tlc("Schedules", c, ["Emit"], spec="Spec")
        return ["seg=" + ",".join(map(str, x["l"])) for x in r.records]
    if kind == "stall":
        at = sorted({tuple(x["l"]) for x in run_tlc("Schedules", c, ["Emit"], spec="Spec").records})
        free = schedules("rnd", workers, num=40, seed=seed, length=length)
        return [f"{free[i % len(free)]} stall={t},{k}" for i, (t, k) in enumerate(at)]
    r = run_tlc("Schedules", c, ["Emit"], spec="Spec", mode="sim", num=num, depth=3, seed=seed)
    out = []
    for x in r.records:
        if x["kind"] == "rnd":
            out.append("rnd=" + ",".join(map(str, x["l"])))
        else:
            out.append("pri=" + ",".join(map(str, x["l"])) + " drop=" + ",".join(map(str, sorted(x["drop"]))))
    return sorted(set(out))


def some(xs, n, seed):
    """n of xs (all when there are no more), reproducibly"""
    import random
    xs = list(xs)
    if len(xs) <= n:
        return xs
    return [xs[i] for i in sorted(random.Random(seed).sample(range(len(xs)), n))]


def scripts(kind, workers, keys, ops, length, num=50, seed=1):
    c = dict(Workers=workers, Keys=keys, Ops=set(ops), Length=length, Kind=kind)
    if kind == "sample":
        r = run_tlc("KVScripts", c, ["Emit"], spec="Spec", mode="sim", num=num, depth=workers * length + 2, seed=seed)
    else:
        r = run_tlc("KVScripts", c, ["Emit"], spec="Spec")
    return [json.loads(x) for x in sorted({json.dumps(x["p"], sort_keys=True) for x in r.records})]


VALUES = ["-", "7", "hello", "*300*5", "%00%FF%0A", "%2D12"]
KEYS = ["a", "b", "c"]


def lines(prog, base=0, at=None):
    """a sampled program as driver lines; worker w of the specification is worker base+w-1 of the driver"""
    out = []
    for w, ops in enumerate(prog):
        for o in ops:
            ks = [KEYS[k - 1] for k in o["ks"]]
            op = o["op"]
            if op == "set":
                a = f"set {ks[0]} {VALUES[o['v']]}"
            elif op == "add":
                a = f"add {ks[0]} {o['v']}"
            elif op in ("chk", "wait"):
                a = f"{op} {';'.join(ks)}"
            elif op == "num":
                a = "num"
            else:
                a = f"{op} {ks[0]}"
            out.append(f"O {base + w} {a}")
    return out


def judge(ck, exe, cases, file, alldown=()):
    """Runs the cases, validates their histories, reports what fails.  cases: [(id, script lines)]"""
    got = run_driver(exe, cases)
    traces, who = [], []
    text = dict(cases)
    for cid, _l in cases:
        st, obs = got[cid]
        key = ck.pid + ":" + cid.split("/")[0]
        if st != 0:
            ck.violation(key + ":crash", f"the run of {cid} ended with {st}", {"script": text[cid], "status": st})
            continue
        n = next(len(l.split()[3]) for l in text[cid] if l.startswith("KV "))
        tmo = [int(next(l.split()[2] for l in text[cid] if l.startswith("KV ")))] * n
        for l in text[cid]:
            w = l.split()
            if w[0] == "O" and w[2] == "tmo":
                tmo[int(w[1])] = int(w[3])
        tr, how = trace(obs, Codec(), KEYS, tmo, n, file)
        if tr is None:
            raise ModelError(f"no result for {cid}")
        if how[0] == "limit":
            ck.violation(key + ":endless", f"{cid} did not come to an end", {"script": text[cid], "history": obs})
            continue
        died = int(how[how.index("died") + 1])
        if died:
            ck.violation(key + ":crash", f"{died} process(es) using the store died in {cid}", {"script": text[cid], "history": obs})
            continue
        live = int(how[how.index("live") + 1])
        if live and how[0] == "done" and cid.split("/")[0] in alldown:
            ck.violation(key + ":threads", f"{live} thread(s) of the store are left after everything was closed in {cid}", {"script": text[cid], "history": obs})
            continue
        traces.append(tr)
        who.append((cid, obs, how))
    bad, uniq = validate(traces, file, ck)
    ck.traces += len(traces)
    ck.sets["distinct_histories"] = ck.sets.get("distinct_histories", 0) + uniq
    for b in bad:
        cid, obs, how = who[b]
        ck.violation(ck.pid + ":" + cid.split("/")[0], f"no order of the calls explains the history of {cid} (end: {' '.join(how)})",
                     {"script": text[cid], "history": obs, "trace": traces[b]})
    for cid, obs, how in who[::max(1, len(who) // 3)]:
        ck.sample({"script": text[cid], "history": obs[:40]})
    return {cid: how for cid, _o, how in who}
