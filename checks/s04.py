"""S04: waiting on the file store.  KVScripts.tla gives every order of sets and deletes around a wait, Schedules.tla the
interleavings; polling runs on virtual time, so that timeouts are judged exactly; histories are checked against KVTrace.tla."""
from cases import *
import kv
from s03 import ASSUME, head


def run(ck):
    exe = B.build("rel", targets=("kvdrv",))["kvdrv"]
    ck.assumptions += ASSUME + [f"a call that can go on must do so within {kv.FSLACK} ms of virtual time"]
    th = ck.thorough
    cases = []
    for ln, num in ((2, 10**6), (4, 10**6 if th else 260), (5, 6000 if th else 60)):
        ps = kv.scripts("orders", 2, 2, {"set", "del"}, ln)
        for k, p in enumerate(kv.some(ps, num, ck.seed)):
            o = p[1][0]
            ks = [kv.KEYS[x - 1] for x in o["ks"]]
            body = []
            for j, x in enumerate(p[0]):
                body += [f"O 0 at {700 * j + 1000}"] + kv.lines([[x]])
            body += [f"O 1 at {700 * o['v'] + 650}", f"O 1 {o['op']} {';'.join(ks)}", "O 1 num"]
            tmo = (0, 900, 20000)[k % 3]
            cases.append((f"orders/{ln}.{k}", head(2, tmo, ("PP", "TT", "TP")[k % 3]) + body + ["RUN rnd=%d horizon=6000" % k]))
    n = 5 if th else 1
    for nw, ln, num, tmo in ((3, 4, 60 * n, 1000), (4, 3, 40 * n, 300), (3, 5, 40 * n, 0)):
        ps = kv.scripts("sample", nw, 2, ["set", "add", "del", "wait", "wait", "get", "chk"], ln, num, ck.seed + 6)
        ss = kv.schedules("mix", nw, num=len(ps) * 2, seed=ck.seed + 60 + nw, horizon=300)
        for k, p in enumerate(ps):
            cases.append((f"mix/{nw}.{ln}.{k}", head(nw, tmo, ("P" * nw, "T" * nw)[k % 2], k % 4 == 3) + kv.lines(p) + [f"RUN {ss[k % len(ss)]} horizon=4000"]))
    # the key comes and goes while the reader looks: every placement of two preemptions
    bodies = [["O 0 set a 1", "O 0 del a", "O 0 set a 2", "O 1 get a", "O 1 get a"],
              ["O 0 set a 1", "O 0 set b 1", "O 0 del a", "O 0 set a 3", "O 1 wait a;b", "O 1 get b"],
              ["O 0 set b 1", "O 0 del b", "O 0 set a 1", "O 1 chk a;b", "O 1 chk b;a", "O 1 wait a"]]
    for b, body in enumerate(bodies):
        for mode in ("PP", "TT"):
            for k, sc in enumerate(kv.some(kv.schedules("seg", 2, 60, 1), 1500 if th else 70, ck.seed + b)):
                cases.append((f"race/{b}.{mode}.{k}", head(2, 1500, mode) + body + [f"RUN {sc} horizon=6000"]))
    # timeouts: exactly when the time is up, or the key is there
    for k, (tmo, st) in enumerate([(1, None), (200, None), (3000, None), (3000, 10), (3000, 2500), (3000, 2985), (3000, 3040), (0, 9000), (0, None), (60000, 5)]):
        for op in ("get a", "wait a", "wait a;b", "wait ="):
            body = ["O 1 at 500", f"O 1 {op}", "O 1 set c 4", "O 1 get c"]
            if st is not None:
                body += [f"O 0 at {500 + st}", "O 0 set b 1", "O 0 set a 1"]
            cases.append((f"timeout/{k}.{op.replace(' ', '')}", head(2, tmo, "PT") + body + [f"RUN rnd={k} horizon=12000"]))
    # checking never waits
    for k, op in enumerate(["chk a", "chk a;b", "chk b;a", "chk =", "num", "del a", "add z 1", "chk a;a"]):
        cases.append((f"check/{k}", head(2, (0, 5000)[k % 2], "TP") + ["O 1 get zz", "O 0 at 100", f"O 0 {op}", "O 0 set b 1", f"O 0 {op}", "O 0 set a 1", f"O 0 {op}", f"RUN rnd={k} horizon=8000"]))
    kv.judge(ck, exe, cases, True)
    ck.sets["schedules"] = len(cases)
