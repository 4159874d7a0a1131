"""python3 tools/seed.py [ID...]: confirm planted bugs in a scratch copy: patch applies to HEAD, builds, stable tests pass, demo 0 on clean / nonzero with the
patch, only original lines changed; then run the checks of its property (development aid, never run by a check)."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SEEDDIR", "/tmp/sc")
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
NOTEST = "-n" in sys.argv
ALL = "-a" in sys.argv
def sh(c, cwd=None, env=None, t=600):
    try:
        r = subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"
os.makedirs(W, exist_ok=True)
if not os.path.isdir(W + "/repo"):
    sh("cp -a /repo %s/repo" % W)
R = W + "/repo"
sh("git fetch -q /repo master 2>/dev/null || true; git -C %s checkout -q -- .; rsync -a --delete --exclude=target --exclude=.git /repo/ %s/ 2>/dev/null || (cd /repo && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C %s)" % (R, R, R))
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
bs = open("/opt/vp/build.sh").read(); ts = open("/opt/vp/test.sh").read()
for i in ids:
    d = V + "/seeded/" + i
    if not os.path.exists(d + "/patch.diff"):
        continue
    meta = json.load(open(d + "/meta.json"))
    sh("tar cf - -C /repo --exclude=./target --exclude=./.git . | tar xf - -C %s; touch %s/src/*.rs" % (R, R))
    def build():
        return sh(". /opt/vp/env.sh; cargo build --offline --tests 2>&1 | tail -30; cargo build --offline --lib 2>&1 | tail -3", R)
    rc, o = sh("git apply --check %s/patch.diff" % d, "/repo")
    if rc:
        print(i, "PATCH DOES NOT APPLY", o[:300]); continue
    # clean demo
    tmp = tempfile.mkdtemp(dir=W); sh("cp -a %s/. %s/" % (d, tmp)); sh("rm -f %s/*.diff %s/meta.json" % (tmp, tmp))
    env = dict(os.environ, DEMO_REPO=R)
    def demo():
        return sh("bash %s/demo.sh" % tmp, R, env, 300)
    out = [i, meta["property"]]
    rc, o = build()
    rcc, oc = demo()
    if rcc != 0:
        out.append("CLEAN DEMO FAILS rc=%d %s" % (rcc, oc[-300:]))
    rc, o = sh("patch -p1 -s -i %s/patch.diff" % d, R)
    rc, o = build()
    if "error" in o and "could not compile" in o:
        out.append("DOES NOT COMPILE " + o[-600:])
    else:
        if not NOTEST:
            rc, o = sh(". /opt/vp/env.sh; cargo nextest run --offline --no-fail-fast 2>&1", R)
            import re
            failed = [s for s in base if re.search(r"FAIL.*" + re.escape(s.rsplit("::", 1)[1]) + r"\b", o)]
            passed = [s for s in base if re.search(r"PASS.*" + re.escape(s.rsplit("::", 1)[1]) + r"\b", o)]
            out.append("tests pass" if len(passed) == len(base) else "TESTS FAIL %s (%d passed)" % (failed, len(passed)))
        rcp, op = demo()
        out.append("demo fails rc=%d" % rcp if rcp else "DEMO PASSES WITH BUG")
        if rcp and "-v" in sys.argv: out.append(op[-300:])
        env2 = dict(os.environ, HNSW_REPO=R, HNSW_BUILD=W + "/build", HNSW_EVIDENCE=W + "/evidence")
        rc, o = sh("python3 %s/check.py %s" % (V, "all" if ALL else meta["property"]), None, env2)
        v = [l.split("property=")[1].split()[0] for l in o.splitlines() if l.startswith("VIOLATION")]
        out.append(("caught " + ",".join(v)) if meta["property"] in v else "MISSED (violations %s, rc %d)" % (v, rc))
        if rc == 2: out.append(o[-500:])
    print(" | ".join(out), flush=True)
    shutil.rmtree(tmp)
