"""Compile-fail witnesses: programs compiled against the crate as just type-checked.

A witness is one source with two variants: with `--cfg twin` it respects the rule and must compile,
without it breaks the rule and must be refused by the borrow checker, with one of the codes announced."""
import glob, os, re, tempfile
from . import mir

HEAD = re.compile(r"^//! (\w+): *(.*)$", re.M)


def library():
    """the metadata of the crate in its current state"""
    mir.dump()
    def find():
        c = glob.glob(os.path.join(mir.BUILD, "check", "debug", "**", "libhnsw_rs*.rmeta"), recursive=True)
        return max(c, key=os.path.getmtime) if c else None
    lib = find()
    if lib is None:
        for f in glob.glob(os.path.join(mir.BUILD, "mir-*.json")):
            os.unlink(f)
        mir.dump()
        lib = find()
    if lib is None:
        raise mir.ToolError("no metadata of the crate")
    return lib


def variants():
    """[(name, head, source)]"""
    out = []
    for p in sorted(glob.glob(os.path.join(mir.VERIF, "witness", "*.rs"))):
        s = open(p).read()
        out.append((os.path.basename(p)[:-3], dict(HEAD.findall(s)), p))
    return out


def compile_(path, lib, twin):
    """(compiles, error codes, output)"""
    dirs = {os.path.dirname(f) for f in glob.glob(os.path.join(mir.BUILD, "check", "debug", "**", "*.rmeta"), recursive=True)}
    dirs |= {os.path.dirname(f) for f in glob.glob(os.path.join(mir.BUILD, "check", "debug", "**", "*.so"), recursive=True)}
    with tempfile.TemporaryDirectory(dir=mir.BUILD) as d:
        cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "witness", "--emit=metadata", "--out-dir", d,
               "--cap-lints", "allow", "--extern", "hnsw_rs=" + lib]
        for x in sorted(dirs):
            cmd += ["-L", "dependency=" + x]
        if twin:
            cmd += ["--cfg", "twin"]
        rc, out = mir.run(cmd + [path], env={"LD_LIBRARY_PATH": mir.sysroot() + "/lib"})
    errs = re.findall(r"^error(?:\[(E\d+)\])?: (.*)$", out, re.M)
    return rc == 0, {c or m for c, m in errs if not m.startswith("aborting")}, out
