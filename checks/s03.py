"""S03: the file store is linearizable across processes and threads.  FileStoreDesign.tla is the protocol at system-call grain
(checked exhaustively with deaths, and shown to catch the faulty designs); clients as threads and as processes run KVScripts.tla's
programs under Schedules.tla's interleavings of their system calls; the recorded histories are checked against KVTrace.tla."""
from cases import *
import kv

ASSUME = ["adding to a value that is not a decimal number leaves it unchanged and answers -1",
          "a failed get is reported as an empty value, as the interface has no other way",
          "keys give file names no longer than the file system allows (255 bytes, three for each '/' or '%')"]


def design(ck):
    for lock, ren, inv, good in (("store", True, ["NoLostAdd", "NoPartial", "NoPhantom"], True), ("none", True, ["NoLostAdd"], False),
                                 ("store", False, ["NoPartial"], False), ("key", True, ["NoPhantom"], False)):
        r = run_tlc("FileStoreDesign", dict(Procs={1, 2, 3}, Adds=2, Lock=lock, Rename=ren, Deaths=1 if inv != ["NoLostAdd"] and not good else 0), inv, spec="Spec", expect_ok=False)
        ck.count(r)
        if r.ok != good:
            raise ModelError(f"file store design {lock} {ren}: {r.ok}")
    r = run_tlc("FileStoreDesign", dict(Procs={1, 2, 3}, Adds=2, Lock="store", Rename=True, Deaths=2), ["NoPartial", "NoPhantom"], spec="Spec")
    ck.count(r)


def head(n, tmo, mode, shared=False):
    out = [f"KV file {tmo} {mode}"]
    for w in range(n):
        out += [f"O {w} open" + (" common" if shared else ""), f"O {w} at 5"]
    return out


def run(ck):
    exe = B.build("rel", targets=("kvdrv",))["kvdrv"]
    ck.assumptions += ASSUME
    design(ck)
    th = ck.thorough
    n = 6 if th else 1
    cases = []
    for nw, ln, num in ((2, 6, 90 * n), (3, 4, 110 * n), (4, 3, 60 * n)):
        ps = kv.scripts("sample", nw, 2, ["set", "set", "get", "add", "add", "del", "chk", "num"], ln, num, ck.seed + 2)
        ss = kv.schedules("mix", nw, num=len(ps) * 2, seed=ck.seed + 20 + nw, horizon=200)
        for k, p in enumerate(ps):
            for j in range(2):
                mode = ["P" * nw, "T" * nw, ("TP" * nw)[:nw]][(k + j) % 3]
                cases.append((f"mix/{nw}.{k}.{j}", head(nw, 200, mode, (k + j) % 3 == 1 and k % 2) + kv.lines(p) + [f"RUN {ss[(2 * k + j) % len(ss)]}"]))
    # contended calls on one key: every placement of two preemptions
    bodies = [["O 0 add a 1", "O 0 add a 2", "O 1 add a 4", "O 1 get a"],
              ["O 0 set a *9000*1", "O 0 del a", "O 1 get a", "O 1 chk a", "O 1 set a *5000*2"],
              ["O 0 set a 5", "O 0 set b 5", "O 0 del b", "O 0 del a", "O 1 chk a;b", "O 1 num", "O 1 chk b;a", "O 1 get b"],
              ["O 0 add a 1", "O 0 del a", "O 1 add a 3", "O 1 del a", "O 1 num"],
              ["O 0 del a", "O 0 get a", "O 1 num", "O 1 chk a", "O 1 del a"]]
    for b, body in enumerate(bodies):
        for mode in ("PP", "TT"):
            for k, sc in enumerate(kv.some(kv.schedules("seg", 2, 70, 1), 2500 if th else 130, ck.seed + b)):
                cases.append((f"grain/{b}.{mode}.{k}", head(2, 200, mode, mode == "TT" and k % 2) + body + [f"RUN {sc}"]))
    # a client that dies in the middle of any call
    for k in range(300 if th else 80):
        ops = [["O 0 set a *9000*1", "O 0 set a *9000*2"], ["O 0 add n 1", "O 0 add n 1", "O 0 add n 1"], ["O 0 set a 1", "O 0 del a", "O 0 set a 2"]][k % 3]
        cases.append((f"dies/{k}", head(2, 200, "PP") + ["O 1 set n 3"] + ops + ["O 1 chk a", "O 1 get a", "O 1 add n 1", "O 1 at 1000", "O 1 chk a;n", "O 1 get n", "O 1 get a", "O 1 num", "O 1 set a 7", "O 1 get a",
                       f"RUN rnd={k} kill=0,{3 + k // 3}"]))
    # keys of every kind keep apart; a missing key stays missing
    keys = ["a", "-", ".", "..", "a/b", "../b", "../a/store", "/", "%2E", "%25", "%252F", ".lock", ".tmp", "a%2Fb", "%252E", "a/", "%0A", "a.b", "*80*5", "%C3%A9", "a%252Fb", "A"]
    pairs = [(x, y) for i, x in enumerate(keys) for y in keys[:i]]
    for k, (x, y) in enumerate(pairs if th else kv.some(pairs, 110, ck.seed)):
        cases.append((f"keys/{k}", head(1, 100, "P") + [f"O 0 del {x}", f"O 0 num", f"O 0 chk {x}", f"O 0 set {x} 5", f"O 0 chk {y}", f"O 0 num", f"O 0 add {y} 7", f"O 0 get {x}", f"O 0 num", f"O 0 chk {x};{y}",
                                                    f"O 0 del {x}", f"O 0 chk {x}", f"O 0 get {y}", f"O 0 del {x}", f"O 0 get {x}", f"O 0 num", "RUN rnd=1"]))
    vals = ["-", "%00", "x", "%00%01%02%FF", "*25*1", "*70000*2", "0", "%2D5", "*1000003*4", "%0A", "12%00"]
    for k, v in enumerate(vals):
        cases.append((f"bytes/{k}", head(2, 200, ("PP", "TT")[k % 2]) + [f"O 0 {'sets' if k % 2 else 'set'} a {v}", "O 0 num", f"O 1 {'gets' if k % 3 else 'get'} a", "O 1 chk a", "O 0 set a -", "O 0 get a", "O 0 add a 6", "RUN rnd=" + str(k)]))
    for k, (a, b) in enumerate([("7", 5), ("-", 3), ("0", -9), ("%2D12", 12), ("%2D12", -8), ("hello", 4), ("-", -1)]):
        cases.append((f"numbers/{k}", head(2, 200, "PT") + [f"O 1 set a {a}", f"O 1 add a {b}", "O 1 get a", f"O 1 add b {b}", "O 1 get b", f"O 1 add a 0", "O 0 add b 1", f"RUN rnd={k}"]))
    # counters of any size
    for k, b in enumerate(kv.LARGE):
        t = str(b).replace("-", "%2D")
        cases.append((f"large/{k}", head(2, 200, "PT") + [f"O 0 add a {b}", "O 0 add a 7", "O 0 get a", f"O 0 set b {t}", "O 0 add b -3", "O 0 get b", "O 0 add b 900", "O 0 at 100", "O 1 at 200",
                                          "O 1 add a -20", "O 1 get a", "O 1 add b 1", "O 1 get b", f"RUN rnd={k}"]))
    # marks that move from key to key, watched by calls that look at several
    move = [f"O 0 {x}" for _ in range(3) for x in ("set a 5", "del a", "add b 5", "del b")] + ["O 0 set a 5", "O 0 del a", "O 0 set b 5"]
    look = [f"O 1 {x}" for _ in range(4) for x in ("chk a;b", "num", "chk b;a")]
    ss = kv.schedules("mix", 2, num=900 if th else 100, seed=ck.seed + 70, horizon=250, length=8) + kv.schedules("pri", 2, num=900 if th else 100, seed=ck.seed + 71, horizon=250)
    for k, sc in enumerate(ss):
        cases.append((f"moves/{k}", head(2, 200, ("PP", "TT")[k % 2]) + move + look + [f"RUN {sc}"]))
    kv.judge(ck, exe, cases, True)
    ck.sets["schedules"] = len(cases)
