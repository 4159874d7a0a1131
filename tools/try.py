"""python3 tools/try.py [-c C01,C02] PATCH...: runs the checks on a scratch copy of /repo with each patch applied (development aid)"""
import os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
ids = ["all"]
if a[0] == "-c":
    ids = a[1].split(",")
    a = a[2:]
W = os.environ.get("TRYDIR", "/tmp/w")
env = dict(os.environ, HNSW_REPO=W + "/repo", HNSW_BUILD=W + "/build", HNSW_EVIDENCE=W + "/evidence")
os.makedirs(W, exist_ok=True)
for p in a:
    subprocess.run(["rsync", "-a", "--delete", "--exclude=target", "--exclude=.git", "/repo/", W + "/repo/"], check=True) \
        if shutil.which("rsync") else (shutil.rmtree(W + "/repo", ignore_errors=True),
                                       subprocess.run("mkdir -p %s/repo && cd /repo && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C %s/repo" % (W, W), shell=True, check=True))
    r = subprocess.run(["git", "apply", "--directory=" + "", os.path.abspath(p)], cwd=W + "/repo", capture_output=True, text=True)
    if r.returncode:
        r = subprocess.run(["patch", "-p1", "-s", "-i", os.path.abspath(p)], cwd=W + "/repo", capture_output=True, text=True)
    if r.returncode:
        print(p, "DOES NOT APPLY", r.stdout, r.stderr)
        continue
    r = subprocess.run([sys.executable, V + "/check.py"] + ids, env=env, capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("==", p, "rc", r.returncode, [l.split("property=")[1].split()[0] for l in v])
    lines = r.stdout.splitlines()
    for i, l in enumerate(lines):
        if l.startswith("  ") and not l.startswith("      "):
            print(l[:300])
    if r.returncode == 2 or r.stderr:
        print(r.stdout[-800:], r.stderr[-1500:])
