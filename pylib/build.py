"""Builds the library under test from /repo's *current working tree* plus the verification drivers.

Objects go to /verif/.build/<flavour> (git-ignored).  Ninja + depfiles decide what is stale; ninja
compares mtimes, and to be independent of mtimes (fresh checkouts, git apply) the content hash of every
repo source is mixed into a stamp that forces a rebuild of the objects when it differs.
"""
import glob, hashlib, os, subprocess, sys, shutil, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TT_REPO", "/repo")
BUILD = os.environ.get("TT_BUILD", os.path.join(VERIF, ".build"))

FLAVOURS = {
    # close to the shipped build: release, no exceptions in the library, asserts are always on in TinyTorch
    "rel": dict(cxx="g++", flags="-std=c++17 -O1 -g1 -DNDEBUG -DTT_VERIF -w", lflags="-pthread"),
    "asan": dict(cxx="g++", flags="-std=c++17 -O1 -g1 -DNDEBUG -DTT_VERIF -w -fsanitize=address,undefined "
                 "-fno-sanitize-recover=undefined -fno-sanitize=vptr -fno-omit-frame-pointer",
                 lflags="-pthread -fsanitize=address,undefined"),
}


class BuildError(Exception):
    pass


def _h(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def tree_hash():
    h = hashlib.sha1()
    files = []
    for root, _d, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith((".h", ".cpp", ".cuh", ".hpp", ".inl")):
                files.append(os.path.join(root, f))
    for root, _d, fs in os.walk(os.path.join(VERIF, "harness")):
        for f in fs:
            files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(f.encode() + b"\0" + _h(f).encode())
    return h.hexdigest()


def build(flavour="rel", dist=False, targets=("ttdrv",)):
    """Returns {target: path}.  dist=True also builds the Distributed library with stub NCCL/CUDA headers."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(flavour, targets)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


TARGETS = {
    # name -> (sources in harness/, needs core library objects, needs the Distributed library)
    "ttdrv": (["ttdrv.cpp"], True, False),
    "memdrv": (["ttdrv.cpp", "memtrack.cpp"], True, False),
    "allocdrv": (["allocdrv.cpp"], True, False),
    "kvdrv": (["kvdrv.cpp", "vsched.cpp", "fakenccl.cpp"], True, True),
    "distdrv": (["distdrv.cpp", "vsched.cpp", "fakenccl.cpp"], True, True),
    "pgdrv": (["pgdrv.cpp", "vsched.cpp", "fakenccl.cpp"], True, True),
    "loaddrv": (["loaddrv.cpp", "fakenccl.cpp"], True, True),
}


def _build(flavour, targets):
    fl = FLAVOURS[flavour]
    bd = os.path.join(BUILD, flavour)
    os.makedirs(bd, exist_ok=True)
    stub = os.path.join(VERIF, "harness", "stubs")
    inc = f"-I{REPO}/src -I{REPO}/third_party"
    incd = f"-I{stub} -I{REPO}/src -I{REPO}/third_party"
    lines = [
        "ninja_required_version = 1.5",
        f"cxx = {fl['cxx']}",
        "rule cc",
        f"  command = $cxx {fl['flags']} $inc $extra -MMD -MF $out.d -c $in -o $out",
        "  depfile = $out.d",
        "  deps = gcc",
        "rule ar",
        "  command = rm -f $out && ar rcs $out $in",
        "rule ld",
        f"  command = $cxx -o $out $in $ldx {fl['lflags']}",
    ]
    stamps = os.path.join(bd, "h")
    os.makedirs(stamps, exist_ok=True)
    th = tree_hash()

    srcs = sorted(s for s in glob.glob(f"{REPO}/src/**/*.cpp", recursive=True))
    core, distsrc = [], []
    for s in srcs:
        rel = os.path.relpath(s, f"{REPO}/src")
        (distsrc if rel.startswith("Distributed/") else core).append((s, rel))
    objs = []
    for s, rel in core:
        o = f"core/{rel.replace('/', '_')}.o"
        objs.append(o)
        lines += [f"build {o}: cc {s}", f"  inc = {inc}", "  extra = -fno-exceptions"]
    lines += [f"build libcore.a: ar {' '.join(objs)}"]
    dobjs = []
    for s, rel in distsrc:
        o = f"dist/{rel.replace('/', '_')}.o"
        dobjs.append(o)
        lines += [f"build {o}: cc {s}", f"  inc = {incd}", "  extra ="]
    lines += [f"build libdist.a: ar {' '.join(dobjs)}"]
    seen = set()
    for t in sorted(TARGETS):
        hs, needcore, dsrc = TARGETS[t]
        os_ = []
        for h in hs:
            o = f"h/{'d' if dsrc else 'c'}/{h}.o"
            os_.append(o)
            if o not in seen:
                seen.add(o)
                lines += [f"build {o}: cc {VERIF}/harness/{h}", f"  inc = {incd if dsrc else inc}",
                          f"  extra = -I{VERIF}/harness" + (" -DTT_DIST" if dsrc else "")]
        if dsrc:
            os_.append("libdist.a")
        if needcore:
            os_.append("libcore.a")
        lines += [f"build {t}: ld {' '.join(os_)}", "  ldx = -rdynamic -ldl"]
    nf = os.path.join(bd, "build.ninja")
    text = "\n".join(lines) + "\n"
    old = open(nf).read() if os.path.exists(nf) else ""
    if old != text:
        open(nf, "w").write(text)
    # content-hash guard: if the tree differs from the recorded one, touch files whose hash changed
    rec = os.path.join(bd, "hashes")
    prev = {}
    if os.path.exists(rec):
        for l in open(rec):
            a, b = l.rstrip("\n").split(" ", 1)
            prev[b] = a
    cur = {}
    changed = []
    for root in (f"{REPO}/src", f"{VERIF}/harness"):
        for r, _d, fs in os.walk(root):
            for f in fs:
                p = os.path.join(r, f)
                if f.endswith((".h", ".cpp")):
                    cur[p] = _h(p)
                    if prev.get(p) not in (None, cur[p]):
                        changed.append(p)
    if prev and (changed or set(prev) - set(cur)):
        # drop objects that depend on a changed/removed file, whatever the mtimes say
        bad = set(changed) | (set(prev) - set(cur))
        out = subprocess.run(["ninja", "-C", bd, "-t", "deps"], capture_output=True, text=True).stdout
        tgt = None
        for l in out.splitlines():
            if l and not l.startswith(" "):
                tgt = l.split(":")[0]
            elif l.strip() in bad and tgt:
                try:
                    os.unlink(os.path.join(bd, tgt))
                except FileNotFoundError:
                    pass
    r = subprocess.run(["ninja", "-C", bd] + list(targets), capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError((r.stdout + r.stderr)[-6000:])
    with open(rec, "w") as f:
        for p, h in sorted(cur.items()):
            f.write(f"{h} {p}\n")
    return {t: os.path.join(bd, t) for t in targets}


if __name__ == "__main__":
    t0 = time.time()
    print(build(sys.argv[1] if len(sys.argv) > 1 else "rel", targets=tuple(sys.argv[2:]) or ("ttdrv",)), time.time() - t0)
