"""D02: process groups route work to the right back end and report it truthfully.  ProcessGroups.tla (the registry), NcclOps.tla
(operations over a stand-in NCCL whose streams and events order effects), InitStrings.tla (what initialisation asks for) generate
behaviours replayed on the real classes; WorkScripts.tla chooses what threads do with one work handle under a controlled
scheduler, and the recorded histories are checked against WorkTrace.tla."""
import json
from vt import run_tlc, run_driver, together, ModelError
import build as B
import kv

ASSUME = ["a back end type is registered with one object (registering another object for it is unspecified)",
          "a device type or default without a resolvable back end is not used",
          "NCCL itself is a stand-in; failures of communicator creation and of asynchronous queries end the program by design",
          "the time limit of a wait on an NCCL work counts from when the operation was issued",
          "barriers over NCCL need a GPU tensor and are not run"]


def uniq(recs):
    return [json.loads(x) for x in sorted({json.dumps(r, sort_keys=True) for r in recs})]


# ---- registry
def reg_case(h, wrapped, rank, world):
    lines, exp = [f"GP {int(wrapped)} {rank} {world}"], []
    for s in h:
        c, a, e, q = s["c"], s["a"], s["e"], s["q"]
        if c == "back":
            lines.append(f"GB {a[0]} {a[1]} {'-' if a[2] < 1 else a[2]}")
        elif c in ("default", "timeout", "name", "desc"):
            lines.append("G" + dict(default="D", timeout="T", name="N", desc="E")[c] + f" {a[0]}")
        elif c == "bound":
            lines.append(f"GU {'-' if a[0] < 0 else a[0]}")
        elif c in ("abort", "shutdown"):
            lines.append("GA" if c == "abort" else "GS")
            exp.append(("set", {f"{o}:{c}" for o in e["objs"]}))
        elif c == "release":
            lines.append("GR")
        elif c == "destroy":
            lines.append("GX")
            exp.append(("set0", {f"{o}:shutdown" for o in e["objs"]}))
            continue
        else:
            direct, kind, x, b, k, z = a
            lines.append(f"GC {direct} {kind} {x} {b} {k} {z}")
            v = "[" + ",".join(map(str, range(k))) + "]"
            w = "[[" + ",".join(map(str, range(k, 2 * k))) + "]]"
            body = {"broadcast": f"{v}:{x}", "allReduce": f"{v}:{b}", "reduce": f"{v}:{x}:{b}", "allGather": f"{w}:{v}",
                    "reduceScatter": f"{v}:{w}:{b}", "send": f"{v}:{x}", "recv": f"{v}:{x}",
                    "barrier": ",".join(str(4 + 3 * i) for i in range(b)) + ":" + (str(x) if direct and x >= 0 else "-")}[kind]
            exp.append(("is", f"P {e['obj']}:{kind}:{body} {e['ret']} {e['waits']}"))
        ds = sorted(d for d, _o in q["reg"])
        ts = sorted(t for t, _o in q["types"])
        lines.append("GQ " + (",".join(map(str, ds)) or "-") + " " + (",".join(map(str, ts)) or "-"))
        nm = lambda o: "none" if o == -1 else str(o)
        exp.append(("is", " ".join([f"Q {int(bool(ds))} {q['def']} {rank} {world}"] + [f"d{d}={nm(o)}" for d, o in sorted(q["reg"])] +
                                   [f"t{t}={nm(o)}" for t, o in sorted(q["types"])] + ["has=" + "".join(map(str, ds)), "desc=" + q["desc"]] +
                                   [f"o{i + 1}={q['tmo'][i]}:{q['nm'][i]}:{q['ds'][i]}:" + ("-" if q["bd"][i] < 0 else str(q["bd"][i])) for i in range(4)])))
    return lines + ["GZ"], exp


# ---- NCCL
def nccl_case(h, rank, world):
    lines, exp = [f"NC {rank} {world}"], []
    for s in h:
        o, e = s["o"], s["exp"]
        if s["s"] == "op":
            lines.append(f"NO {s['id']} {o['kind']} {o['dt']} {o['red']} {o['root']} {o['n']} {o['fail'] or '-'} {o['eager']} {o['late']} {o['drop']} {o['polls']}")
            exp.append(("op", e, o, rank))
        elif s["s"] == "wait":
            lines.append(f"NW {s['id']} {o['n'] if o['kind'] == '' and o['n'] == 20 else 0}")
            exp.append(("is", f"W {e['res']} {e['done']} {e['succ']} {e['succ']}"))
        elif s["s"] == "view":
            lines.append(f"NV {s['id']}")
            exp.append(("is", " ".join(["V"] + [",".join(map(str, x)) for x in e["outs"]])))
        elif s["s"] == "seen":
            lines.append("NL")
            exp.append(("is", " ".join(["L"] + [x[0] + ":" + ",".join(map(str, x[1:])) for x in e["seen"]])))
        elif s["s"] in ("hang", "unhang"):
            lines.append("NH " + ("1" if s["s"] == "hang" else "0"))
        else:
            lines.append("NA" if s["s"] == "abort" else "NS")
            exp.append(("is", f"A {e['err'][0]} " + (",".join(x[0] for x in e["calls"]) or "-")))
    return lines + ["NX"], exp + [("any",)]


def differs(exp, obs):
    """the first observation that is not the expected one"""
    obs = [o for o in obs if o[:2] in ("P ", "Q ", "A ", "O ", "W ", "V ", "L ") or o in ("V", "L")]
    if len(obs) != len(exp):
        return f"{len(obs)} observations instead of {len(exp)}"
    for x, o in zip(exp, obs):
        if x[0] == "is" and x[1].strip() != o.strip():
            return f"expected {x[1]!r}, got {o!r}"
        if x[0] in ("set", "set0"):
            w = o.split()
            if (set() if w[1] == "-" else set(w[1].split(";"))) != x[1] or (x[0] == "set0" and w[2] != "0"):
                return f"expected {sorted(x[1])}, got {o!r}"
        if x[0] == "op":
            e, op, rank = x[1], x[2], x[3]
            w = o.split()
            calls = ",".join(":".join(map(str, c)) for c in e["calls"]) or "-"
            kinds = dict(broadcast="BROADCAST", allReduce="ALL_REDUCE", reduce="REDUCE", allGather="ALL_GATHER", reduceScatter="REDUCE_SCATTER", send="SEND", recv="RECV")
            good = w[1] == str(e["ok"]) and int(w[2]) in e["err"] and w[3] == calls and w[5] == "0"
            if good and e["ok"]:
                good = w[6] == str(rank) and w[7] == kinds[op["kind"]]
            if not good:
                return f"expected ok={e['ok']} err={e['err']} {calls}, got {o!r}"
    return None


# ---- initialisation
def init_case(c, k):
    env = [f"{n}={v['txt']}" for n, v in (("MASTER_ADDR", c["addr"]), ("MASTER_PORT", c["port"]), ("WORLD_SIZE", c["ew"]), ("RANK", c["er"])) if v["set"]]
    e = c["exp"]
    lines = []
    tmo = 300 + k % 7
    if e["ok"] and e["kind"] == "tcp" and e["rank"] != 0:
        lines.append(f"IN 1 0 {max(e['world'], 2)} 300 tcp://{e['host']}:{e['port']}")      # somebody to connect to
    lines.append(f"IN {c['backend']} {c['rank']} {c['world']} {tmo} {c['method'] or '?'} " + " ".join(env))
    who = len(lines) - 1
    lines.append("IRUN seg= horizon=100000")

    def judge(obs):
        got = [o.split()[3:] for o in obs if o.startswith("H ")]
        mine = [g for g in got if g[1] == str(who)]
        files = next((o.split()[1:] for o in obs if o.startswith("F")), None)
        r = next((o.split()[1:] for o in obs if o.startswith("R ")), None)
        if r is None or r[0] != "done" or r[3] != "0":
            return "the run did not end: " + str(r)
        if not e["ok"]:
            return None if mine == [["init", str(who), "0", "0"]] else f"expected a refusal, got {mine}"
        want = ["init", str(who), "1", "1", str(e["rank"]), str(e["world"])] + (["tcp", e["host"], str(e["port"])] if e["kind"] == "tcp" else ["file"]) + [str(tmo), "1"]
        if not mine or mine[0] != want:
            return f"expected {want}, got {mine[:1]}"
        if mine[1:] != [["again", str(who), "0", "1", "1"], ["third", str(who), "1", "1", "3"]]:
            return f"initialising again: {mine[1:]}"
        if "other" in files or (e["kind"] == "file") != (e["host"] in files):
            return f"files made: {files}"
        return None
    return lines, judge


# ---- works
def work_lines(p, kind, sched):
    out = []
    for w, ops in enumerate(p):
        for o in ops:
            out.append(f"WP {w} {o['o']}" + (f" {o['a']}" if o["o"] in ("at", "err", "wait") else ""))
    return out + [f"WRUN {kind} {sched} horizon=500000"]


def work_trace(obs, n):
    ev, how = [], None
    for o in obs:
        w = o.split()
        if w[0] == "H":
            if w[3] == "call":
                ev.append(dict(k="call", w=int(w[4]) + 1, op=w[6], a=int(w[7]) if len(w) > 7 else 0, t=int(w[1]), r=0))
            elif w[3] == "ret":
                ev.append(dict(k="ret", w=int(w[4]) + 1, op="", a=0, t=int(w[1]), r=int(w[6])))
        elif w[0] == "R":
            how = w[1:]
    return dict(n=n, ev=ev), how


def work_validate(ck, traces, nccl, chunk=120):
    bad_one = json.loads(json.dumps(traces[0]))
    last = max(i for i, e in enumerate(bad_one["ev"]) if e["k"] == "call" and e["op"] == "done")
    w = bad_one["ev"][last]["w"]
    r = next(e for e in bad_one["ev"][last:] if e["k"] == "ret" and e["w"] == w)
    r["r"] = 1 - r["r"]
    n = (len(traces) + chunk - 1) // chunk

    def one(at):
        part = traces[at::n]
        def go():
            r = run_tlc("WorkTrace", dict(Nccl=nccl), ["Report"], spec="Spec", workers=2, heap="3g",
                        files={"traces.ndjson": "\n".join(json.dumps(t) for t in part + [bad_one]) + "\n"})
            ok = {x["ok"] for x in r.records if "ok" in x}
            if len(part) + 1 in ok:
                raise ModelError("a corrupted history was accepted")
            return r, [at + i * n for i in range(len(part)) if i + 1 not in ok]
        return go
    bad = []
    for r, b in together([one(a) for a in range(n)], 4):
        ck.count(r)
        bad += b
    return bad


def run(ck):
    ck.assumptions += ASSUME
    exe = B.build("rel", targets=("pgdrv",))["pgdrv"]
    f = 6 if ck.thorough else 1
    sim = lambda m, c, num, depth, **k: (lambda: run_tlc(m, c, ["Emit"] + k.get("inv", []), spec="Spec", mode="sim", num=num, depth=depth, seed=ck.seed + k.get("s", 0), workers=2))
    full = lambda m, c: (lambda: run_tlc(m, c, ["Emit"], spec="Spec", workers=2))
    gens, jobs = [], []
    for wr, st, num in ((False, 14, 90), (True, 16, 110), (False, 30, 20)):
        gens.append(("registry", wr)); jobs.append(sim("ProcessGroups", dict(Wrapped=wr, Steps=st), num * f, st + 2, s=st, inv=["Routed"]))
    for world, rank in ((1, 0), (2, 0), (2, 1), (4, 2)):
        gens.append(("single", (rank, world))); jobs.append(full("NcclOps", dict(Kind="single", World=world, Rank=rank, Steps=0)))
        gens.append(("failures", (rank, world))); jobs.append(sim("NcclOps", dict(Kind="sample", World=world, Rank=rank, Steps=14), 60 * f, 16, s=world * 5 + rank))
    for k in ("env", "tcp", "file", "bad"):
        gens.append(("init", k)); jobs.append(full("InitStrings", dict(Kind=k)))
    for kind, th, ln, num in (("base", 3, 4, 110), ("base", 4, 3, 60), ("nccl", 3, 4, 110), ("nccl", 4, 3, 60), ("base", 2, 6, 40), ("nccl", 2, 6, 40)):
        gens.append(("works", kind)); jobs.append(sim("WorkScripts", dict(Kind=kind, Threads=th, Length=ln), num * f, ln + 3, s=th))
    ss = kv.schedules("mix", 4, num=120, seed=ck.seed, horizon=300)
    runs, judges, progs = [], {}, {}
    for (kind, x), r in zip(gens, together(jobs, 4)):
        recs = uniq(r.records)
        ck.count(r)
        if kind == "single":
            recs = kv.some(recs, 10**6 if ck.thorough else 500, ck.seed)
        if kind == "init" and x == "env":
            recs = kv.some([c for c in recs if not c["exp"]["ok"]], 10**6 if ck.thorough else 220, ck.seed) + kv.some([c for c in recs if c["exp"]["ok"]], 10**6 if ck.thorough else 220, ck.seed)
        for i, c in enumerate(recs):
            cid = f"{kind}/{len(runs)}"
            if kind == "registry":
                rank, world = [(0, 1), (1, 4), (3, 4)][i % 3]
                lines, exp = reg_case(c, x, rank, world)
                judges[cid] = lambda obs, exp=exp: differs(exp, obs)
            elif kind in ("single", "failures"):
                lines, exp = nccl_case(c, *x)
                judges[cid] = lambda obs, exp=exp: differs(exp, obs)
            elif kind == "init":
                lines, judges[cid] = init_case(c, i)
            else:
                for j in range(3):
                    cid = f"works/{len(runs)}"
                    lines = work_lines(c, x, ss[(3 * i + j) % len(ss)])
                    progs[cid] = (x, len(c))
                    runs.append((cid, lines))
                continue
            runs.append((cid, lines))
    # every placement of two preemptions among three threads that race to finish and to wait
    race = [[dict(o="wait", a=0), dict(o="exc", a=0)], [dict(o="err", a=1), dict(o="wait", a=0), dict(o="exc", a=0)], [dict(o="ok", a=0), dict(o="wait", a=0), dict(o="succ", a=0), dict(o="done", a=0)]]
    racen = [[dict(o="wait", a=3), dict(o="exc", a=0)], [dict(o="at", a=3), dict(o="ev", a=0), dict(o="wait", a=0)], [dict(o="wait", a=50), dict(o="succ", a=0), dict(o="done", a=0)]]
    for j, (kind, p) in enumerate((("base", race), ("nccl", racen))):
        for sc in kv.some(kv.schedules("seg", 3, 40, 1 if ck.thorough else 2), 1500 if ck.thorough else 250, ck.seed + j):
            cid = f"races/{len(runs)}"
            progs[cid] = (kind, 3)
            runs.append((cid, work_lines(p, kind, sc)))
    got = run_driver(exe, runs)
    traces = {"base": [], "nccl": []}
    n = 0
    for cid, lines in runs:
        st, obs = got[cid]
        key = ck.pid + ":" + cid.split("/")[0]
        rep = {"script": lines, "observations": obs, "status": st}
        if st != 0:
            ck.violation(key + ":crash", f"{cid} ended with {st}", rep)
            continue
        n += 1
        if cid in progs:
            t, how = work_trace(obs, progs[cid][1])
            if how is None:
                raise ModelError("no result for " + cid)
            if how[0] != "done":
                ck.violation(key + ":hang", f"a call on a finished work does not return in {cid}", rep)
                continue
            traces[progs[cid][0]].append((t, cid, rep))
        else:
            d = judges[cid](obs)
            if d:
                ck.violation(key + ":differs", f"{cid}: {d}", rep)
    for kind, ts in traces.items():
        if ts:
            for i in work_validate(ck, [t for t, _c, _r in ts], kind == "nccl"):
                ck.violation(ck.pid + ":" + kind + ":history", f"no order of the calls of {ts[i][1]} explains their results ({kind})", ts[i][2])
    ck.traces += n
    ck.sets["runs"] = len(runs)
    for want in ("registry", "failures", "init", "works"):
        cid = next((c for c, _l in runs if c.startswith(want)), None)
        if cid:
            ck.sample({"script": dict(runs)[cid], "observations": got[cid][1][:4]})
