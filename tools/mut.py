"""python3 tools/mut.py [-j N] [-c C01,..] FILE[:name]...: runs the checks on mutants (development aid)

FILE under tools/mutants holds M = [(name, "C20 C21" or "" for an edit that changes nothing, [(file, old, new)])]"""
import fcntl, os, runpy, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"


def main():
    a = sys.argv[1:]
    j, ids = 4, ["all"]
    while a and a[0].startswith("-"):
        if a[0] == "-j":
            j = int(a[1])
        if a[0] == "-c":
            ids = a[1].split(",")
        a = a[2:]
    ms = []
    for x in a:
        fn, _, nm = x.partition(":")
        p = os.path.join(V, "tools", "mutants", fn + ".py")
        for m in runpy.run_path(p)["M"]:
            if not nm or m[0] in nm.split(","):
                ms.append(m)
    q = queue.Queue()
    os.makedirs(W, exist_ok=True)
    locks = []
    for k in range(32):
        lk = open("%s/lock%d" % (W, k), "w")
        try:
            fcntl.flock(lk, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            continue
        locks.append(lk)
        q.put(k)
        if len(locks) == j:
            break

    def run(m):
        k = q.get()
        try:
            return one(m, "%s/%d" % (W, k), ids)
        finally:
            q.put(k)
    with ThreadPoolExecutor(j) as ex:
        for m, r in zip(ms, ex.map(run, ms)):
            print(r, flush=True)


def one(m, d, ids):
    name, want, edits = m
    os.makedirs(d, exist_ok=True)
    shutil.rmtree(d + "/repo", ignore_errors=True)
    subprocess.run("mkdir -p %s/repo && cd /repo && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C %s/repo" % (d, d), shell=True, check=True)
    for f, old, new in edits:
        p = "%s/repo/%s" % (d, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            return "%-28s EDIT: %d occurrences of %r" % (name, n, old[:60])
        open(p, "w").write(s.replace(old, new))
    env = dict(os.environ, HNSW_REPO=d + "/repo", HNSW_BUILD=d + "/build", HNSW_EVIDENCE=d + "/evidence")
    i2 = ids if ids != ["want"] else (want.split() or ["all"])
    if i2 != ["all"] and len(i2) > 1:
        outs = [subprocess.run([sys.executable, V + "/check.py", i], env=env, capture_output=True, text=True) for i in i2]
    else:
        outs = [subprocess.run([sys.executable, V + "/check.py"] + i2, env=env, capture_output=True, text=True)]
    out = "".join(o.stdout for o in outs)
    err = "".join(o.stderr for o in outs)
    if any(o.returncode == 2 for o in outs) or err:
        return "%-28s TOOL %s %s" % (name, out[-600:], err[-1500:])
    got = [l.split("property=")[1].split()[0] for l in out.splitlines() if l.startswith("VIOLATION")]
    det = [l[:230] for l in out.splitlines() if l.startswith("  ") and not l.startswith("      ")]
    und = []
    for l in out.splitlines():
        if " undecided, " in l:
            c = l.split(":")[0]
            u = int(l.split(" undecided, ")[0].split()[-1])
            try:
                b = json.load(open("%s/evidence/%s.json" % (V, c)))["coverage"]["undecided"]
            except Exception:
                b = 0
            if u != b:
                und.append("%s %d->%d" % (c, b, u))
    w = want.split()
    ok = ("caught" if set(w) & set(got) else "MISSED") if w else ("quiet" if not got else "FALSE ALARM")
    r = "%-28s %-7s want %s got %s%s" % (name, ok, want or "-", got, "  undecided " + ", ".join(und) if und else "")
    return r + ("\n" + "\n".join(det[:6]) if det and not (ok == "caught" and os.environ.get("BRIEF")) else "")


main()
