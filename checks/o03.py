from cases import *


def run(ck):
    exe = B.build("rel")["ttdrv"]
    recs = []
    th = ck.thorough
    runs = [({1, 2, 3, 5}, set(range(-1, 7)), set(), 14, None), ({1, 2, 3}, {-1, 0, 2}, {0, 1, 2, 3, 4, 6}, 5 if th else 4, None),
            ({2, 3, 7}, {-1, 1, 5}, {0, 3, 4, 6, 9, 14, 15, 40}, 20, 400 if th else 60)]
    for per, st, jm, n, sim in runs:
        kw = dict(mode="sim", num=sim, depth=n + 2, seed=ck.seed) if sim else {}
        r = run_tlc("Scheduler", {"Periods": per, "Starts": st, "Jumps": jm, "MaxLog": n}, ["ClosedForm", "NoDecayAtZero", "Emit"], **kw)
        ck.count(r)
        recs += r.records
    cap = 60000 if th else 9000
    if len(recs) > cap:
        recs = [recs[i * len(recs) // cap] for i in range(cap)]
    jobs, meta = [], []
    for i, c in enumerate(recs):
        gamma, lr0, algo = ((0.5, 0.2, "SGD p 0 0.2,0,0,0"), (0.1, 1.0, "SGD p 0 1,0,0,0"), (0.9, 0.05, "SGD p 0 0.05,0,0,0"))[(i + ck.seed) % 3]
        L = ["T p f32 1 1 2 0", "T g f32 0 1 1 0", "SG p g", "OPT " + algo, f"SCH {c['period']} {gamma} {c['start']}", "SQ"]
        for e in c["log"][1:]:
            L += {"step": ["SS"], "jump": [f"SS {e['epoch']}"], "opt": ["STEP", "G p"]}[e["k"]] + ["SQ"]
        jobs.append((str(i), L))
        meta.append((gamma, lr0))
    res = run_driver(exe, jobs)
    for i, c in enumerate(recs):
        st, obs = res[str(i)]
        gamma, lr0 = meta[i]
        ck.traces += 1
        o = iter(parse(obs))
        p, m = 2.0, None
        try:
            for j, e in enumerate(c["log"]):
                want = lr0 * gamma ** e["decays"]
                where = f"after action {j} ({e['k']} -> epoch {e['epoch']})"
                if e["k"] == "opt":
                    p -= want
                    got = fnum(next(o)[2]["d"][0])
                    if abs(got - p) > 2e-5 * max(1, abs(p), want):
                        m = m or f"{where} the parameter is {got}, specified {p}: the step did not use the scheduled rate {want}"
                q = next(o)[2]
                for nm in ("lr", "last"):
                    if abs(fnum(q[nm]) - want) > 1e-5 * want:
                        m = m or f"{where} {'the optimiser rate' if nm == 'lr' else 'the last rate'} is {q[nm]}, specified {want}"
                if q["epoch"] != e["epoch"]:
                    m = m or f"{where} the epoch is {q['epoch']}"
        except StopIteration:
            m = m or f"terminated abnormally ({st})"
        if m:
            ck.violation("O03:" + c["log"][-1]["k"], f"period {c['period']} gamma {gamma} resumed at {c['start']} actions {[(e['k'], e['epoch']) for e in c['log']]}: {m}", {"history": c, "script": jobs[i][1], "observed": obs})
        else:
            ck.sample({"period": c["period"], "start": c["start"], "actions": [e["k"] for e in c["log"]]})
    ck.assumptions += ["epochs given explicitly are not negative", "a schedule resumed at epoch n takes the optimiser's rate as the rate of epoch n"]
