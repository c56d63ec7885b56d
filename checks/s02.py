"""S02: blocked readers of the network store wake when their keys arrive.  TcpWaiters.tla is the waiting protocol (checked
exhaustively, and shown to catch the two designs that lose wake-ups); KVScripts.tla gives every order of sets and deletes around a
wait; the histories recorded from the real server under controlled schedules and virtual time are checked against KVTrace.tla."""
from cases import *
import kv
from s01 import ASSUME


def design(ck):
    for la, er in ((True, False), (False, False), (True, True)):
        good = la and not er
        r = run_tlc("TcpWaiters", dict(Keys={"a", "b"}, Waiters={"x", "y"}, MaxOps=8 if ck.thorough and good else 6 if good else 5, ListenAll=la, EraseOnNotify=er),
                    ["NoLostWakeup"] + (["NoStaleName"] if good else []), spec="Spec", expect_ok=False)
        ck.count(r)
        if r.ok != good:
            raise ModelError(f"waiting protocol: ListenAll={la} EraseOnNotify={er} gave {r.ok}")


def run(ck):
    exe = B.build("rel", targets=("kvdrv",))["kvdrv"]
    ck.assumptions += ASSUME + [f"a call that can go on must do so within {kv.SLACK} ms of virtual time",
                                "a key that is set and deleted again before its waiter runs need not wake it"]
    design(ck)
    th = ck.thorough
    cases = []
    # every order of sets and deletes of two keys around one wait, one call at a time
    for ln, num in ((2, 10**6), (4, 10**6 if th else 330), (5, 6000 if th else 60)):
        ps = kv.scripts("orders", 2, 2, {"set", "del"}, ln)
        for k, p in enumerate(kv.some(ps, num, ck.seed)):
            o = p[1][0]
            ks = [kv.KEYS[x - 1] for x in o["ks"]]
            body = []
            for j, x in enumerate(p[0]):
                body += [f"O 0 at {2000 * j + 4000}"] + kv.lines([[x]])
            body += [f"O 1 at {2000 * o['v'] + 3000}", f"O 1 {o['op']} {';'.join(ks)}", "O 1 num"]
            tmo = (0, 90000, 3000)[k % 3]
            cases.append((f"orders/{ln}.{k}", [f"KV tcp {tmo} TT", "O 0 serve 0", "O 1 open"] + body + ["RUN rnd=%d horizon=40000" % k]))
    # waits against sets, additions and deletes by several clients at once
    n = 5 if th else 1
    for nw, ln, num, tmo in ((3, 4, 70 * n, 6000), (4, 3, 50 * n, 6000), (3, 6, 40 * n, 0)):
        ps = kv.scripts("sample", nw, 2, ["set", "add", "del", "wait", "wait", "get"], ln, num, ck.seed + 5)
        ss = kv.schedules("mix", nw, num=len(ps) * 2, seed=ck.seed + 50 + nw, horizon=1000)
        for k, p in enumerate(ps):
            pre = [f"KV tcp {tmo} " + ("T" if k % 2 else "P") * nw, "O 0 serve 0", "O 0 at 5000"]
            for w in range(1, nw):
                pre += [f"O {w} open", f"O {w} at 5000"]
            cases.append((f"mix/{nw}.{ln}.{k}", pre + kv.lines(p) + [f"RUN {ss[k % len(ss)]} horizon=120000"]))
    # the narrow race: set, delete and set again around a sleeping waiter
    bodies = [["O 1 wait a;b", "O 0 at 2000", "O 0 set a 1", "O 0 del a", "O 0 set b 1", "O 0 set a 2", "O 2 at 2000", "O 2 del b", "O 2 set b 2", "O 2 at 9000", "O 2 chk a;b"],
              ["O 1 get a", "O 1 get a", "O 0 at 2000", "O 0 set a 1", "O 0 del a", "O 0 add a 5", "O 2 get a", "O 2 del a", "O 2 set a 9"],
              ["O 1 wait a", "O 1 wait b", "O 2 wait b", "O 2 wait a", "O 0 at 2000", "O 0 set b 1", "O 0 set a 1"]]
    for b, body in enumerate(bodies):
        ss = kv.schedules("mix", 3, num=(600 if th else 60), seed=ck.seed + 70 + b, horizon=700) + kv.some(kv.schedules("seg", 8, 60, 6), 1500 if th else 60, ck.seed + b)
        ss += [x + " from=1900" for x in kv.some(kv.schedules("stall", 8, 40, seed=ck.seed + b), 10**6 if th else 130, ck.seed + b) + ss[:40]]
        for k, sc in enumerate(ss):
            cases.append((f"race/{b}.{k}", ["KV tcp 60000 TTT", "O 0 serve 0", "O 1 open", "O 2 open", "O 1 at 1500", "O 2 at 1500"] + body + [f"RUN {sc} horizon=50000"]))
    # each client's own timeout, to the millisecond grain of the clock; then it goes on using the store
    for k, (ts, tc, st) in enumerate([(90000, 4000, None), (4000, 90000, 8000), (4000, 0, 30000), (0, 5000, None), (0, 5000, 4990), (5000, 5000, 5010), (1, 1, None),
                                      (3000, 3000, 2999), (3000, 3000, 3001)]):
        for op in ("get a", "wait a", "wait a;b"):
            body = ["O 0 serve 0", f"O 1 tmo {tc}", "O 1 open", "O 1 at 2000", f"O 1 {op}", "O 1 set c 4", "O 1 get c", f"O 1 {op}", "O 1 add c 1", "O 1 close"]
            if st is not None:
                body += [f"O 0 at {2000 + st}", "O 0 set b 1", "O 0 set a 1"]
            cases.append((f"timeout/{k}.{op.replace(' ', '')}", [f"KV tcp {ts} TT"] + body + ["O 0 at 70000", "O 0 close", f"RUN rnd={k} horizon=120000 linger=3000"]))
    # shutdown with clients blocked, busy, or idle
    bodies = [["O 1 wait a;b", "O 1 get a", "O 1 set a 1", "O 1 chk a", "O 1 close", "O 2 get b", "O 2 num", "O 2 close"],
              ["O 1 set a 1", "O 1 add a 2", "O 1 get a", "O 1 del a", "O 1 close", "O 2 at 2001", "O 2 wait zz", "O 2 close"],
              ["O 1 get zz", "O 1 get zz", "O 2 set a *65536*3", "O 2 get a", "O 2 add n 1", "O 2 close", "O 1 close"]]
    for b, body in enumerate(bodies):
        ss = kv.schedules("mix", 3, num=(400 if th else 45), seed=ck.seed + 80 + b, horizon=900) + kv.some(kv.schedules("seg", 8, 60, 6), 1200 if th else 60, ck.seed + b)
        ss += [x + " from=1990" for x in kv.some(kv.schedules("stall", 8, 40, seed=ck.seed + b), 10**6 if th else 130, ck.seed + b) + ss[:30]]
        for k, sc in enumerate(ss):
            tmo = (0, 60000)[k % 2]
            at = (2000, 2500)[k % 3 == 2]
            cases.append((f"shutdown/{b}.{k}", [f"KV tcp {tmo} {'TTT' if k % 4 else 'PPP'}", "O 0 serve 0", "O 1 open", "O 2 open", "O 1 at 2000", "O 2 at 2000", f"O 0 at {at}", "O 0 close"] + body +
                          [f"RUN {sc} horizon=60000 linger=5000"]))
    # clients that die at any point; the others go on
    for k in range(160 if th else 40):
        ops = [["O 1 get zz"], ["O 1 wait a;zz"], ["O 1 set a *65536*3", "O 1 add n 1"], ["O 1 add n 1", "O 1 add n 1", "O 1 add n 1"]][k % 4]
        cases.append((f"dies/{k}", ["KV tcp %d PPP" % (0, 20000)[k % 2], "O 0 serve 0", "O 1 open", "O 2 open", "O 1 at 2000", "O 2 at 2000"] + ops +
                      ["O 2 set b 1", "O 2 add n 1", "O 2 at 5000", "O 2 add n 1", "O 2 get n", "O 2 close", "O 0 at 8000", "O 0 set zz 1", "O 0 get b", "O 0 close",
                       f"RUN rnd={k} kill=1,{3 + (k * 7) % 90} horizon=60000 linger=5000"]))
    # many connections one after another and at once
    many = []
    for r in range(150):
        many += ["O 1 open", f"O 1 add n 1", "O 1 close"]
    cases.append(("many/0", ["KV tcp 20000 TT", "O 0 serve 0"] + many + ["O 0 at 60000", "O 0 get n", "O 0 close", "RUN rnd=3 horizon=500000 linger=3000"]))
    if th:
        for s in range(6):
            cases.append((f"many/{s + 1}", ["KV tcp 20000 TTTT", "O 0 serve 0"] + [l.replace("O 1", f"O {w}") for w in (1, 2, 3) for l in many[:180]] + ["O 0 at 60000", "O 0 get n", "O 0 close", f"RUN rnd={s},{s + 9},4 horizon=500000 linger=3000"]))
    # workers that register before and after the server waits for them; a second server on the port
    k = 0
    for tmo in (0, 8000):
        for want in (1, 2, 3):
            for late in (0, 3000, 12000):
                k += 1
                cases.append((f"workers/{k}", [f"KV tcp {tmo} TTT", f"O 0 serve {want}", "O 0 set a 1", "O 1 open", "O 1 get a", f"O 2 at {late}", "O 2 open", "O 2 add a 2", "O 2 at 40000",
                                               f"RUN rnd={k} horizon=60000"]))
    for k, op in enumerate(["get a", "set a 2", "add a 2", "del a", "chk a", "wait a", "num"]):
        cases.append((f"noserver/{k}", ["KV tcp 5000 TT", "O 0 serve 0", "O 0 set a 1", "O 1 at 2000", "O 1 serve 0", f"O 1 {op}", "O 1 close", "O 0 at 4000", "O 0 get a", "O 0 close", "RUN rnd=1 horizon=60000 linger=3000"]))
        cases.append((f"noserver/{k + 10}", ["KV tcp 5000 T", "O 0 open", f"O 0 {op}", "O 0 close", "RUN rnd=1 horizon=60000 linger=3000"]))
    kv.judge(ck, exe, cases, False, alldown=("shutdown", "timeout", "dies", "many", "noserver"))
    ck.sets["schedules"] = len(cases)
