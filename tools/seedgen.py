"""python3 tools/seedgen.py [ID...]: writes seeded/<id>/ from tools/seeds/<id>.py (edits as exact text replacements + a Rust demo) against /repo's HEAD.
Development aid; nothing here is read by a check."""
import difflib, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = r'''
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use hnsw_rs::prelude::*;
use hnsw_rs::anndists::dist::*;
use std::collections::{HashMap, HashSet, BTreeMap};
struct Lcg(u64);
impl Lcg {
    fn next(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); self.0 >> 33 }
    fn f(&mut self) -> f32 { (self.next() % 100003) as f32 / 100003. }
    fn vec(&mut self, n: usize) -> Vec<f32> { (0..n).map(|_| self.f()).collect() }
}
fn scratch(name: &str) -> std::path::PathBuf {
    let d = std::env::current_dir().unwrap().join(name);
    std::fs::create_dir_all(&d).unwrap();
    d
}
'''
DEMO = r'''#!/bin/bash
# exit 0 when the property holds, nonzero otherwise. Runs in a scratch directory of its own.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
repo=$(pwd)
lib=$(ls -t "$repo"/target/debug/deps/libhnsw_rs-*.rlib 2>/dev/null | head -1)
[ -n "$lib" ] || { echo "no rlib: run the build first" >&2; exit 9; }
dir=$(mktemp -d /tmp/hnswdemo.XXXXXX)
trap 'cd /; rm -rf "$dir"' EXIT
cd "$dir" || exit 9
rustc --edition 2021 -A warnings "$here/demo.rs" -o demo --extern hnsw_rs="$lib" -L dependency="$repo/target/debug/deps" || exit 8
timeout 200 ./demo
'''
ids = sys.argv[1:] or [os.path.basename(p)[:-3] for p in sorted(glob.glob(V + "/tools/seeds/*.py"))]
for i in ids:
    ns = {}
    exec(open("%s/tools/seeds/%s.py" % (V, i)).read(), ns)
    d = "%s/seeded/%s" % (V, i)
    os.makedirs(d, exist_ok=True)
    out = ""
    byfile = {}
    for fn, old, new in ns["EDITS"]:
        byfile.setdefault(fn, []).append((old, new))
    bad = False
    for fn, eds in byfile.items():
        src = open("/repo/" + fn).read()
        dst = src
        for old, new in eds:
            if dst.count(old) != 1:
                print(i, fn, "text found %d times: %r" % (dst.count(old), old[:80])); bad = True
            dst = dst.replace(old, new, 1)
        out += "".join(difflib.unified_diff(src.splitlines(True), dst.splitlines(True), "a/" + fn, "b/" + fn))
    if bad:
        continue
    open(d + "/patch.diff", "w").write(out)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.rs", "w").write(PRELUDE + ns["DEMO"])
    open(d + "/demo.sh", "w").write(ns.get("DEMO_SH", DEMO))
    os.chmod(d + "/demo.sh", 0o755)
    for k, v in ns.get("FILES", {}).items():
        open(d + "/" + k, "w").write(v)
