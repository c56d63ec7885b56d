"""D01: data-parallel training averages gradients over the ranks.  Reducer.tla is the design (buckets issued in index order
meet the same buckets of the other ranks); ReducerCases.tla generates histories of training on every rank; the collectives and
the parameters and gradients recorded from the real DistributedModule are checked against ReducerTrace.tla."""
import json
from vt import run_tlc, run_driver, together, ModelError
import build as B
import kv

ASSUME = ["every rank runs the same training program: the same parameters in the same order, the same steps",
          "in a pass every gradient-requiring parameter gets one gradient on every rank (in any order), or the pass is partial with "
          "the same parameters on all ranks and only local gradients are expected of it",
          "requires_grad of a parameter does not change while a wrapper exists",
          "float32 parameters on the CPU; the process group's back end is a stand-in whose collectives are correct"]


def design(ck):
    def one(b, w, passes, inorder):
        return lambda: run_tlc("Reducer", dict(World=w, Params=len(b), Bucket=list(b), Passes=passes, InOrder=inorder),
                               ["Compatible", "OnceEach", "Averages"], spec="Spec", properties=["AllDone"], expect_ok=False, workers=2)
    cfg = [((1, 1, 2), 2, 2), ((1, 2, 2), 2, 2), ((1, 2, 3), 2, 2), ((1, 1, 1), 2, 2), ((1, 2), 3, 2)]
    if ck.thorough:
        cfg += [((1, 2, 2, 3), 2, 2), ((1, 2, 3), 3, 1), ((1, 1, 2, 3), 2, 2), ((1, 2, 3), 2, 3)]
    for r in together([one(*c, True) for c in cfg], 4):
        if not r.ok:
            raise ModelError("the design of the reducer fails: " + r.out[-800:])
        ck.count(r)
    if one((1, 2), 2, 1, False)().ok:
        raise ModelError("issuing buckets as they fill was accepted")


def cases(ck):
    n = 6 if ck.thorough else 1
    def gen(kind, world, npar, sizes, caps, steps=0, num=0):
        c = dict(Kind=kind, World=world, NParam=npar, Sizes=set(sizes), Caps=set(caps), Steps=steps)
        def go():
            if kind == "sample":
                r = run_tlc("ReducerCases", c, ["Emit"], spec="Spec", mode="sim", num=num, depth=steps + 4, seed=ck.seed + world * 10 + npar, workers=2)
            else:
                r = run_tlc("ReducerCases", c, ["Emit"], spec="Spec", workers=2)
            return kind, r
        return go
    jobs = [gen("order", 2, 3, [1], [8, 20, 12]), gen("part", 2, 3, [1, 2, 5], [1, 8, 12, 20, 28, 4096])]
    if ck.thorough:
        jobs += [gen("part", 2, 4, [1, 3], [4, 8, 16, 20, 4096]), gen("order", 3, 2, [1], [8, 12, 20])]
    for w, p, s, k in ((2, 4, 6, 60), (3, 3, 5, 40), (4, 5, 4, 25), (1, 3, 5, 15), (2, 7, 8, 40), (3, 5, 6, 25)):
        jobs.append(gen("sample", w, p, [1, 2, 3, 4, 6, 12], [1, 16, 24, 40, 100, 26214400], s, k * n))
    out = []
    for kind, r in together(jobs, 4):
        recs = [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in r.records})]
        cap = {"order": 320, "part": 250, "sample": 10**6}[kind] * (8 if ck.thorough else 1)
        out += [(kind, c) for c in kv.some(recs, cap, ck.seed)]
        ck.count(r)
    return out


SHAPE = {4: ["4", "2,2"], 6: ["6", "2,3", "3,1,2"], 12: ["12", "3,4"], 1: ["1", "1,1"]}


def script(c, k, sched):
    out = [f"DDP {c['world']} {k & 1} {(k >> 1) & 1}"]
    for i, s in enumerate(c["size"]):
        sh = SHAPE.get(s, [str(s)])
        out.append(f"P {sh[(k + i) % len(sh)]} {c['rg'][i]}")
    for s in c["steps"]:
        if s["k"] == "make":
            out.append(f"S make {s['root']} {s['cap']}")
        elif s["k"] == "pass":
            o = "/".join(",".join(str(p - 1) for p in x) or "-" for x in s["ord"])
            out.append(f"S pass {s['how']} {s['zero']} {s['t']} {o}")
        else:
            out.append("S " + s["k"])
    return out + [f"RUN {sched} horizon=900000"]


def nums(s):
    if s == "-":
        return []
    out = []
    for x in s.split(","):
        f = float(x)
        out.append(round(f) if abs(f) < 1e9 and abs(f - round(f)) < 0.01 else 2**30)
    return out


def trace(c, obs):
    W, S = c["world"], len(c["steps"])
    ops = [[[] for _ in range(S)] for _ in range(W)]
    see = [[None] * S for _ in range(W)]
    for o in obs:
        w = o.split()
        if w[0] != "H":
            continue
        if w[3] == "op":
            r = int(w[4])
            if int(w[5]) < S:                    # the step that issued it
                ops[r][int(w[5])].append(dict(k=w[6], a=int(w[7]), d=nums(w[8])))
            else:
                return None                      # a collective after the program's end
        elif w[3] == "st":
            r, k = int(w[4]), int(w[5])
            ps = [x.split(";") for x in w[6:]]
            see[r][k] = dict(v=[nums(a) for a, _b in ps], g=[nums(b) for _a, b in ps])
        elif w[3] == "bad":
            raise ModelError("the process group did not initialise")
    if any(x is None for r in see for x in r):
        return None
    return dict(world=W, size=c["size"], rg=c["rg"], steps=c["steps"], ops=ops, see=see)


def validate(ck, traces, chunk=60):
    bad_one = json.loads(json.dumps(traces[0]))
    bad_one["see"][0][-1]["v"][0][0] += 1
    n = (len(traces) + chunk - 1) // chunk
    def one(at):
        part = traces[at::n]
        def go():
            r = run_tlc("ReducerTrace", {}, ["Report"], spec="Spec", workers=2, heap="3g",
                        files={"traces.ndjson": "\n".join(json.dumps(t) for t in part + [bad_one]) + "\n"})
            ok = {x["ok"] for x in r.records if "ok" in x}
            if len(part) + 1 in ok:
                raise ModelError("a corrupted run was accepted")
            return r, [at + i * n for i in range(len(part)) if i + 1 not in ok]
        return go
    bad = []
    for r, b in together([one(a) for a in range(n)], 4):
        ck.count(r)
        bad += b
    return bad


def run(ck):
    ck.assumptions += ASSUME
    exe = B.build("rel", targets=("distdrv",))["distdrv"]
    design(ck)
    cs = cases(ck)
    ss = kv.schedules("mix", 4, num=80, seed=ck.seed, horizon=1500)
    jobs = []
    for k, (kind, c) in enumerate(cs):
        jobs.append((f"{kind}/{k}", script(c, k % 4 if kind == "sample" else (k * 7) % 4, ss[k % len(ss)])))
    # the interleavings of two ranks whose gradients become ready in opposite orders
    body = dict(world=2, size=[2, 3, 2], rg=[1, 1, 1], steps=[
        dict(k="make", root=1, cap=12, how="", zero=0, t=0, ord=[]),
        dict(k="pass", root=0, cap=0, how="direct", zero=1, t=1, ord=[[1, 2, 3], [3, 2, 1]]),
        dict(k="pass", root=0, cap=0, how="graph", zero=0, t=2, ord=[[2, 1, 3], [3, 1, 2]])])
    for k, sc in enumerate(kv.some(kv.schedules("seg", 6, 100, 7), 3000 if ck.thorough else 150, ck.seed)):
        cs.append(("seg", body))
        jobs.append((f"seg/{k}", script(body, k % 4, sc)))
    got = run_driver(exe, jobs)
    text, traces, who = dict(jobs), [], []
    for (cid, _l), (_kind, c) in zip(jobs, cs):
        st, obs = got[cid]
        key = ck.pid + ":" + cid.split("/")[0]
        how = next((o.split()[1:] for o in obs if o.startswith("R ")), None)
        rep = {"script": text[cid], "history": obs, "status": st}
        if st != 0 or how is None:
            ck.violation(key + ":crash", f"the run of {cid} ended with {st}", rep)
            continue
        if int(how[how.index("died") + 1]):
            ck.violation(key + ":crash", f"a rank died in {cid}", rep)
            continue
        if how[0] != "done":
            ck.violation(key + ":hang", f"the ranks of {cid} wait for each other for ever", rep)
            continue
        t = trace(c, obs)
        if t is None:
            ck.violation(key + ":steps", f"a rank of {cid} did not finish its steps", rep)
            continue
        traces.append(t)
        who.append((cid, rep))
    if traces:
        for i in validate(ck, traces):
            cid, rep = who[i]
            ck.violation(ck.pid + ":" + cid.split("/")[0] + ":values", f"the collectives or gradients of {cid} are not those of averaging over the ranks", rep)
    ck.traces += len(traces)
    ck.sets["runs"] = len(jobs)
    ck.sets["worlds"] = sorted({c["world"] for _k, c in cs})
    if who:
        ck.sample({"script": text[who[0][0]], "history": who[0][1]["history"][:6]})
