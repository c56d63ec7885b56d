from cases import *

REGS = ("p", "q", "r", "s")
ALLD, ALLM = {"shape", "move", "slice", "pair"}, {"fill", "arith", "out", "index", "copy", "reshape"}


def hist_script(steps, dt, regs):
    """Lines performing a history, observing every live register after every step."""
    L, live = [], []
    for st in steps:
        o, out = st["o"], st["out"]
        if o["op"] == "create":
            t = o["lits"][0]["t"]
            L.append(f"T {out} {dt} 0 {csv(t['s'])} {fcsv(t['d'])} 0")
        elif o["op"] == "drop":
            L.append(f"D {out}")
        else:
            for k, l in enumerate(o["lits"]):
                d = dt if l["dt"] == "v" else l["dt"]
                L.append(f"T L{k+1} {d} 0 {csv(l['t']['s'])} {fcsv(l['t']['d'])} 0")
            il = ";".join(csv(x) for x in o["il"]) or "-"
            mut = o["op"].endswith("_") or o["op"] in ("addI", "mulI")
            outs = "-" if mut else "tmp" if o["pick"] >= 0 else out
            L.append(f"O {o['op']} {outs} {','.join(o['ins'])} {il} {fcsv(o['fl'])}")
            if o["pick"] >= 0:
                L += [f"MV {out} tmp.{o['pick']}", "DL tmp"]
        for r in regs:
            if st["vals"][r]["d"]:
                L.append(f"G {r}")
    return L


def run(ck):
    exe = B.build("rel")["ttdrv"]
    # the copy-on-write design refines independent values; without the copy it does not
    c = {"Names": {"a", "b", "c"}, "MaxBlocks": 3, "Size": 2 if not ck.thorough else 3, "Vals": {1, 2}, "CopyFirst": True}
    ck.count(run_tlc("CowMachine", c, ["NoLeak"], spec="Spec", properties=["Isolation"]))
    bad = run_tlc("CowMachine", dict(c, Size=2, CopyFirst=False), spec="Spec", properties=["Isolation"], expect_ok=False)
    if bad.ok or "Isolation" not in bad.out:
        raise ModelError("CowMachine does not distinguish the design without copying")
    hists = []

    def tlc(regs, shapes, plan, ders, muts, arith, extras=False):
        r = run_tlc("TensorMachine", {"Regs": regs, "Shapes": shapes, "Len0": 0, "Plan": plan, "Derives": ders, "Mutations": muts, "Arith": arith, "Extras": extras},
                    ["TypeOK", "Isolated", "Emit"])
        ck.count(r)
        return [(x["steps"], regs, arith) for x in r.records]
    S = [Raw("{<<2, 3>>, <<1, 3>>, <<>>}"), Raw("{<<3>>, <<2, 1, 2>>}")]
    two, three = REGS[:2], REGS[:3]
    for sh in S:
        hists += tlc(two, sh, ("c", "d", "m"), ALLD, ALLM, True, True)
        hists += tlc(two, sh, ("c", "d", "m"), ALLD, ALLM, False, True)
        hists += tlc(two, sh, ("c", "m", "d", "m"), {"slice", "move"}, {"reshape", "copy"}, True)
    hists += tlc(two, Raw("{<<2, 3>>}"), ("c", "d", "m", "m"), {"shape", "slice"}, ALLM if ck.thorough else {"fill", "index", "copy"}, True)
    hists += tlc(three, Raw("{<<2, 3>>}"), ("c", "d", "d", "m"), {"shape", "slice", "move"}, {"index", "copy", "out"} if not ck.thorough else ALLM, True)
    hists += tlc(three, Raw("{<<2, 2>>}"), ("c", "d", "d", "x", "m"), {"slice"}, {"fill", "arith"}, True)
    nex = len(hists)
    # long free histories
    n = 3000 if ck.thorough else 250  # per worker
    for arith in (True, False):
        r = run_tlc("TensorMachine", {"Regs": REGS, "Shapes": Raw("{<<2, 3>>, <<1, 3>>, <<4>>, <<2, 2, 2>>, <<>>}"), "Len0": 14 if ck.thorough else 10, "Plan": (), "Derives": ALLD, "Mutations": ALLM,
                                      "Arith": arith, "Extras": False}, ["TypeOK", "Isolated", "Emit"], mode="sim", num=n, depth=16, seed=ck.seed + arith)
        ck.count(r)
        hists += [(x["steps"], REGS, arith) for x in r.records]
    jobs, meta = [], {}
    for i, (steps, regs, arith) in enumerate(hists):
        k = i + ck.seed
        dt = (("f32", "bf16", "f32", "f16") if arith else ("i64", "f32", "i32", "f16"))[k % 4]
        jobs.append((str(i), hist_script(steps, dt, regs)))
        meta[str(i)] = (steps, regs, dt)
    ck.sets.update(histories_exhaustive=nex, histories_random=len(hists) - nex)
    judge_histories(ck, exe, jobs, meta)


def judge_histories(ck, exe, jobs, meta):
    res = run_driver(exe, jobs)
    for cid, L in jobs:
        steps, regs, dt = meta[cid]
        st, obs = res[cid]
        ck.traces += 1
        desc = " ; ".join(f"{s['out']}={s['o']['op']}({','.join(s['o']['ins'])}{s['o']['il'] or ''})" for s in steps)
        o = iter(parse(obs))
        msg, key = None, None
        for s in steps:
            for r in regs:
                v = s["vals"][r]
                if not v["d"]:
                    continue
                got = next(o, None)
                if got is None:
                    msg, key = f"terminated abnormally ({st}) at {s['o']['op']}", "abort"
                    break
                if not same_tensor(v, got[2], 0) and not (dt in ("bf16",) and same_tensor(v, got[2], 0.01)):
                    who = "the modified tensor" if r == s["out"] else "another tensor"
                    msg = f"after {s['out']}={s['o']['op']}({','.join(s['o']['ins'])}) {who} {r} is {json.dumps(got[2])[:160]}, specified {json.dumps(v)[:160]}"
                    key = s["o"]["op"] + ("" if r == s["out"] else ":other")
                    break
            if msg:
                break
        if msg:
            ck.violation(f"V01:{key}", f"dtype={dt} history {desc}: {msg}", {"history": steps, "dtype": dt, "script": L, "observed": obs, "status": str(st)})
        else:
            ck.sample({"dtype": dt, "history": desc})
