"""Loading of the MIR dump written by /verif/driver, and names/types helpers."""
import functools, hashlib, json, os, re, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HNSW_REPO", "/repo")
BUILD = os.environ.get("HNSW_BUILD", os.path.join(VERIF, ".build"))


class ToolError(Exception):
    """The machinery itself could not run (not a verdict)."""


def run(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def _hash_tree(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds.sort()
                for f in sorted(fs):
                    fp = os.path.join(d, f)
                    h.update(fp.encode())
                    h.update(open(fp, "rb").read())
        elif os.path.exists(p):
            h.update(p.encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def sysroot():
    rc, out = run(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise ToolError("no nightly toolchain: " + out)
    return out.strip().splitlines()[-1]


def driver():
    """Builds the MIR driver (a few seconds) unless it is up to date."""
    src = os.path.join(VERIF, "driver")
    hh = _hash_tree([os.path.join(src, "src"), os.path.join(src, "Cargo.toml")])
    tgt = os.path.join(BUILD, "driver")
    exe = os.path.join(tgt, "debug", "hnsw-mir")
    stamp = os.path.join(tgt, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == hh:
        return exe
    os.makedirs(tgt, exist_ok=True)
    rc, out = run(["cargo", "+nightly", "build", "--offline"], env={"CARGO_TARGET_DIR": tgt}, cwd=src)
    if rc:
        raise ToolError("driver does not build:\n" + out[-3000:])
    open(stamp, "w").write(hh)
    return exe


def repo_hash():
    return _hash_tree([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"),
                       os.path.join(REPO, "build.rs"), os.path.join(REPO, ".cargo")])


def dump():
    """Type-checks the crate in REPO and returns the path of its MIR dump (keyed by the
    content of the sources, so an unchanged tree is not compiled twice)."""
    exe = driver()
    hh = repo_hash() + "-" + _hash_tree([exe])
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "mir-%s.json" % hh)
    if os.path.exists(out):
        return out
    for f in os.listdir(BUILD):
        if f.startswith("mir-"):
            os.unlink(os.path.join(BUILD, f))
    tgt = os.path.join(BUILD, "check")
    # cargo's freshness cache would skip the wrapper: forget the crate's own units
    for sub in ("debug/.fingerprint", "debug/deps", "debug/incremental", "debug/build"):
        d = os.path.join(tgt, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                if re.match(r"(lib)?hnsw_rs", f) or re.match(r"hnsw[-_]rs", f):
                    p = os.path.join(d, f)
                    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    tmp = out + ".tmp"
    env = {
        "HNSW_MIR_OUT": tmp,
        "RUSTC_WORKSPACE_WRAPPER": exe,
        "CARGO_TARGET_DIR": tgt,
        "LD_LIBRARY_PATH": sysroot() + "/lib",
        "CARGO_INCREMENTAL": "0",
    }
    rc, txt = run(["cargo", "+nightly", "check", "--lib", "--offline"], env=env, cwd=REPO)
    if rc or not os.path.exists(tmp):
        raise ToolError("the crate does not type-check under the driver:\n" + txt[-4000:])
    os.rename(tmp, out)
    return out


def strip_generics(p):
    """a::B::<'b, T>::c -> a::B::c ; keeps <X as Y> and <impl X> segments."""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
        else:
            out.append(p[i])
            i += 1
    return "".join(out)


_impl = re.compile(r"<impl ([^<>]*(?:<[^<>]*>)?[^<>]*)>")


@functools.lru_cache(maxsize=None)
def short(p):
    """Last two meaningful components: Vec::push, Iterator::map, slice::len, usize::from_ne_bytes."""
    p = strip_generics(p)
    m = re.match(r"^(.*)<impl (.*)>::(\w+)$", p)
    if m:
        t = m.group(2)
        if " for " in t:
            tr = t.split(" for ")[0]
            tr = re.sub(r"<.*", "", tr).split("::")[-1]
            return tr + "::" + m.group(3)
        t = re.sub(r"<.*", "", t)
        if t.startswith("["):
            t = "slice"
        return t.split("::")[-1] + "::" + m.group(3)
    m = re.match(r"^<(.*) as ([^ ]*?)(<.*>)?>::(\w+)$", p)
    if m:
        return m.group(2).split("::")[-1] + "::" + m.group(4)
    parts = p.split("::")
    if len(parts) >= 2:
        return parts[-2] + "::" + parts[-1]
    return p


class Body:
    __slots__ = ("prog", "id", "path", "name", "kind", "parent", "exported", "reachable", "unsafe", "no_mangle",
                 "file", "line", "impl_self", "impl_trait", "impl_trait_args", "in_trait", "locals", "argc", "names",
                 "blocks", "promoted", "spath", "derived", "generics")

    def __init__(self, prog, j):
        self.prog = prog
        for k in ("id", "path", "name", "kind", "parent", "exported", "reachable", "no_mangle"):
            setattr(self, k, j[k])
        self.unsafe = j["unsafe"]
        self.file, self.line = j["span"][0], j["span"][1]
        self.impl_self = j.get("impl_self")
        self.impl_trait = j.get("impl_trait")
        self.impl_trait_args = j.get("impl_trait_args")
        self.in_trait = j.get("in_trait")
        self.derived = j.get("derived", False)
        b = j["body"]
        self.locals, self.argc, self.names, self.blocks = b["locals"], b["argc"], b["names"], b["blocks"]
        self.promoted = j["promoted"]
        self.generics = j["generics"]
        self.spath = strip_generics(self.path)

    def __repr__(self):
        return "<%s>" % self.id


class Adt:
    def __init__(self, j):
        self.path = j["path"]
        self.local = j["local"]
        self.kind = j["kind"]
        self.exported = j["exported"]
        self.repr_c = j["repr_c"]
        self.has_drop = j["has_drop"]
        # [(variant name, [(field, type index, visibility)], discriminant)]
        self.variants = [(v[0], [tuple(f) for f in v[1]], int(v[2])) for v in j["variants"]]

    @property
    def fields(self):
        return self.variants[0][1]


class Prog:
    def __init__(self, path=None):
        self.dump_path = path or dump()
        j = json.load(open(self.dump_path))
        self.types = j["types"]
        self.adts = {a["path"]: Adt(a) for a in j["adts"]}
        self.bodies = {}
        self.by_path = {}
        for b in j["bodies"]:
            body = Body(self, b)
            self.bodies[body.id] = body
            self.by_path.setdefault(body.path, []).append(body)
        self.by_spath = {}
        for b in self.bodies.values():
            self.by_spath.setdefault(b.spath, []).append(b)

    # ---- types
    def ts(self, i):
        return self.types[i]["s"]

    def ty(self, i):
        return self.types[i]

    def peel(self, i):
        """Removes references, pointers, Box and Arc."""
        while True:
            t = self.types[i]
            if t["k"] in ("ref", "ptr"):
                i = t["to"]
            elif t["k"] == "adt" and t["path"] in ("std::sync::Arc", "std::boxed::Box", "std::rc::Rc") and t["args"]:
                i = t["args"][0]
            else:
                return i

    def peel_ref(self, i):
        while self.types[i]["k"] in ("ref", "ptr"):
            i = self.types[i]["to"]
        return i

    def adt_of(self, i, peel=True):
        if peel:
            i = self.peel(i)
        t = self.types[i]
        return t["path"] if t["k"] == "adt" else None

    def local_adts(self):
        return {p: a for p, a in self.adts.items() if a.local}

    # ---- functions
    def fn(self, suffix, impl_of=None, trait=None, many=False):
        """Finds a local fn by the end of its generics-stripped path or by (self type, name)."""
        r = []
        for b in self.bodies.values():
            if b.kind == "Closure":
                continue
            if impl_of is not None or trait is not None:
                if b.name != suffix:
                    continue
                if impl_of is not None:
                    if b.impl_self is None or self.adt_of(b.impl_self) is None:
                        continue
                    if self.adt_of(b.impl_self).split("::")[-1] != impl_of:
                        continue
                if trait is not None:
                    if (b.impl_trait or "").split("::")[-1] != trait:
                        continue
                else:
                    if b.impl_trait is not None:
                        continue
                r.append(b)
            elif b.spath == suffix or b.spath.endswith("::" + suffix):
                if b.impl_trait is None:
                    r.append(b)
        if many:
            return r
        if len(r) != 1:
            return None
        return r[0]

    def closures_of(self, bid):
        return [b for b in self.bodies.values() if b.kind == "Closure" and b.parent == bid]

    def closure_body(self, tyidx):
        t = self.types[tyidx]
        if t["k"] != "closure":
            return None
        l = self.by_path.get(t["path"], [])
        return l[0] if len(l) == 1 else (l[0] if l else None)
