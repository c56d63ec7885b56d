"""S01: the network store is linearizable.  KVScripts.tla and Schedules.tla choose what the clients do and how the threads of
server and clients are interleaved; the recorded calls and returns are checked against KVTrace.tla."""
from cases import *
import kv

ASSUME = ["a store object is used by one thread at a time (each client has its own)",
          "adding to a value that is not a decimal number leaves it unchanged and answers -1",
          "a failed get is reported as an empty value, as the interface has no other way"]


def wrap(body, n, tmo, sched, mode=None, extra=(), free=False):
    """serves and opens, runs the body from 2000 ms on (when all have connected), closes; free: the schedule rules the beginning too"""
    out = [f"KV tcp {tmo} {mode or 'T' * n}", "O 0 serve 0", "O 0 at 2000"]
    for w in range(1, n):
        out += [f"O {w} open", f"O {w} at 2000"]
    out += [f"{l.rsplit(' ', 1)[0]} {int(l.split()[3]) + 2000}" if l.split()[2] == "at" else l for l in body]
    out += [f"O {w} close" for w in range(1, n)] + ["O 0 at 50000", "O 0 close"]
    return out + [f"RUN {sched} horizon=900000 linger=3000 " + ("" if free else "from=2000 ") + " ".join(extra)]


def run(ck):
    exe = B.build("rel", targets=("kvdrv",))["kvdrv"]
    ck.assumptions += ASSUME
    n = 6 if ck.thorough else 1
    cases = []
    # free mixtures of calls under free schedules
    for nw, ln, num in ((3, 5, 90 * n), (4, 3, 60 * n), (2, 7, 60 * n)):
        ps = kv.scripts("sample", nw, 2, ["set", "set", "get", "add", "add", "del", "chk", "num"], ln, num, ck.seed)
        ss = kv.schedules("mix", nw, num=len(ps) * 2, seed=ck.seed + nw, horizon=1200)
        for k, p in enumerate(ps):
            for j in range(2):
                sc = ss[(2 * k + j) % len(ss)]
                ex = ["chop=%d" % (1 + k % 7)] if k % 5 == 1 else ["eintr=%d" % (2 + k % 9)] if k % 5 == 2 else []
                mode = None if k % 3 else "P" * nw
                cases.append((f"mix/{nw}.{k}.{j}", wrap(kv.lines(p), nw, 3000, sc, mode, ex, free=bool(j))))
    # contended additions and reads: every placement of two preemptions (coarsened in the quick tier)
    body = ["O 0 add a 1", "O 0 add a 2", "O 1 add a 4", "O 1 get a", "O 1 del a", "O 1 add a 8"]
    for k, sc in enumerate(kv.some(kv.schedules("seg", 7, 120, 8), 8000 if ck.thorough else 350, ck.seed)):
        cases.append((f"adds/{k}", wrap(body, 2, 3000, sc)))
    # values and keys of every kind, whole and in pieces
    vals = ["-", "%00", "x", "%00%01%02%FF", "*25*1", "*1000*2", "*65536*3", "*300001*4", "%2D5", "0", "00", "%2B7", "999999999999", "*4000000*9"]
    keys = ["a", "-", "%00", "*300*7", "*70000*8", "a%20b", "%FF%FE", "b"]
    k = 0
    for i, v in enumerate(vals):
        for j, key in enumerate(keys):
            if not ck.thorough and (i + j) % 2 and i > 3:
                continue
            k += 1
            mid = v.count("*") and int(v.split("*")[1]) > 500
            big = v.count("*") and int(v.split("*")[1]) > 10000 or key.count("*") and int(key.split("*")[1]) > 10000
            ex = [] if big else [[], ["chop=97" if mid else "chop=1"], ["chop=4097" if mid else "chop=3", "eintr=5"], ["eintr=3"]][k % 4]
            if big:
                ex = [[], ["chop=4097"], ["eintr=3"]][k % 3]
            body = [f"O 1 {'sets' if k % 2 else 'set'} {key} {v}", f"O 1 chk {key}", f"O 1 num", "O 1 at 100",
                    f"O 0 at 60", f"O 0 {'gets' if k % 3 else 'get'} {key}", f"O 0 set other 5", "O 0 num", "O 0 at 200", f"O 1 at 300", f"O 1 del {key}",
                    f"O 1 chk {key}", "O 1 num", "O 1 get other"]
            cases.append((f"bytes/{k}", wrap(body, 2, 3000, "rnd=" + str(k), None, ex)))
    # negative and large additions, and additions to what was set
    for k, (a, b) in enumerate([("7", 5), ("-", 3), ("0", -9), ("%2D12", 12), ("%2D12", -8), ("hello", 4), ("-", -1)]):
        cases.append((f"numbers/{k}", wrap([f"O 1 set a {a}", f"O 1 add a {b}", "O 1 get a", f"O 1 add b {b}", "O 1 get b", f"O 1 add a 0", "O 0 add b 1"], 2, 3000, f"rnd={k}")))
    # counters of any size
    for k, b in enumerate(kv.LARGE):
        t = str(b).replace("-", "%2D")
        cases.append((f"large/{k}", wrap([f"O 0 add a {b}", "O 0 add a 7", "O 0 get a", f"O 0 set b {t}", "O 0 add b -3", "O 0 get b", "O 0 add b 900", "O 0 at 100", "O 1 at 200",
                                          "O 1 add a -20", "O 1 get a", "O 1 add b 1", "O 1 get b"], 2, 3000, f"rnd={k}")))
    # marks that move from key to key, watched by calls that look at several
    # ... while one thread is held up at every one of its steps in turn
    move = [f"O 0 {x}" for x in ("set a 5", "at 100", "del a", "add b 5", "del b", "set a 5", "del a", "set b 5")]
    look = [f"O 1 {x}" for x in ("at 100", "chk a;b", "num", "chk b;a")]
    for rep in range(8 if ck.thorough else 4):
        for k, sc in enumerate(kv.schedules("stall", 6, 48, seed=ck.seed + rep)):
            cases.append((f"moves/{rep}.{k}", wrap(move[:2] + ["O 0 add c 1"] * rep + move[2:] + look, 2, 3000, sc)))
    kv.judge(ck, exe, cases, False)
    ck.sets["schedules"] = len(cases)
