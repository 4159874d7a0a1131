"""What every rule uses: the report, the loaded program, the roles of types and fields, and flows."""
import functools, traceback
from engine.mir import Prog, ToolError, short
from engine.flow import (Flow, build_flow, Policy, T, I, TRUE, FALSE, UNDEF, Term, agg, agg_get, subterms, isok, pay, length, elem,
                         eq, lt, neg, show, is_log, is_bool, binop)


class Report:
    def __init__(self, cid):
        self.cid = cid
        self.items = []
        self.notes = []
        self.counts = {}

    def ok(self, key, where="", msg=""):
        self.items.append(("ok", key, msg, where))

    def bad(self, key, msg, where=""):
        self.items.append(("bad", key, msg, where))

    def unk(self, key, msg, where=""):
        self.items.append(("unknown", key, msg, where))

    def req(self, cond, key, msg, where="", okmsg=""):
        (self.ok(key, where, okmsg) if cond else self.bad(key, msg, where))
        return cond

    def tri(self, v, key, msg, where="", okmsg=""):
        """v: True held, False violated, None undecided"""
        if v is None:
            self.unk(key, msg, where)
        else:
            self.req(v, key, msg, where, okmsg)

    def count(self, name, n, floor=None):
        self.counts[name] = n
        if floor is not None and n < floor:
            self.bad("floor:" + name, "only %d %s found, at least %d confirmed by hand on the reference tree: the rule "
                     "would pass vacuously" % (n, name, floor))

    def note(self, s):
        self.notes.append(s)

    def by(self, st):
        return [i for i in self.items if i[0] == st]


class Missing(Exception):
    """a public anchor the property is stated on has disappeared"""


ARC_POINT = "Point"


class World:
    def __init__(self, prog=None):
        self.prog = prog or Prog()
        self._flows = {}
        self._roles()

    # ---- anchors
    def fn(self, name, impl_of=None, trait=None):
        b = self.prog.fn(name, impl_of=impl_of, trait=trait)
        if b is None:
            raise Missing("%s%s" % ((impl_of + "::") if impl_of else "", name))
        return b

    def fn_opt(self, name, impl_of=None, trait=None):
        return self.prog.fn(name, impl_of=impl_of, trait=trait)

    def flow(self, body, stop=(), key=None, inline=None, prune_logs=True, given=None, assume=None):
        k = (body.id, tuple(sorted(stop)), key, prune_logs, tuple(sorted((s, t.id) for s, t in (given or {}).items())),
             tuple(sorted((t.id, v) for t, v in (assume or {}).items())))
        if k not in self._flows:
            self._flows[k] = build_flow(self.prog, body, Policy(stop=stop, inline=inline, prune_logs=prune_logs, given=given,
                                                          assume=assume))
        return self._flows[k]

    # ---- roles
    def adt(self, name):
        c = [a for p, a in self.prog.adts.items() if a.local and p.split("::")[-1] == name]
        if not c:
            raise Missing("type " + name)
        return c[0]

    def _roles(self):
        pr = self.prog
        self.point = self.adt("Point")
        self.nb_adt = self.adt("Neighbour")
        self.pi = self.adt("PointIndexation")
        self.hnsw = self.adt("Hnsw")
        # heap entry: exactly one f32 and one Arc<Point>
        self.pwo = None
        for p, a in pr.adts.items():
            if a.local and len(a.variants) == 1 and len(a.fields) == 2:
                tys = [pr.ts(f[1]) for f in a.fields]
                if "f32" in tys and any("Arc<" in t and pr.adt_of(f[1]) == self.point.path for t, f in zip(tys, a.fields)):
                    self.pwo = a
        if self.pwo is None:
            raise Missing("heap entry type {Arc<Point>, f32}")
        self.pwo_name = self.pwo.path.split("::")[-1]
        self.pwo_pt = [f[0] for f in self.pwo.fields if pr.ts(f[1]) != "f32"][0]
        self.pwo_d = [f[0] for f in self.pwo.fields if pr.ts(f[1]) == "f32"][0]
        pf = {}
        for nm, ti, vis in self.point.fields:
            s = pr.ts(ti)
            if s == "usize":
                pf["id"] = nm
            elif s.endswith("PointId"):
                pf["pid"] = nm
            elif "RwLock" in s:
                pf["nb"] = nm
            else:
                pf["data"] = nm
        self.pf = pf
        nf = {}
        for nm, ti, vis in self.nb_adt.fields:
            s = pr.ts(ti)
            nf["id" if s == "usize" else "d" if s == "f32" else "pid"] = nm
        self.nf = nf
        self.pif = {}
        for nm, ti, vis in self.pi.fields:
            s = pr.ts(ti)
            if "RwLock" in s or "Mutex" in s:
                if "Option<" in s:
                    self.pif["entry"] = nm
                elif "Vec<" in s:
                    self.pif["layers"] = nm
                elif "usize" in s:
                    self.pif["count"] = nm
            elif pr.adt_of(ti) and pr.adt_of(ti).split("::")[-1] == "LayerGenerator":
                self.pif["gen"] = nm
        self.hf = {}
        for nm, ti, vis in self.hnsw.fields:
            if pr.adt_of(ti) == self.pi.path:
                self.hf["pi"] = nm
            elif pr.ty(ti)["k"] == "param" and pr.ts(ti) != "T":
                self.hf["dist"] = nm
        for d, names in ((self.pf, ("id", "pid", "nb", "data")), (self.nf, ("id", "d", "pid")),
                         (self.pif, ("entry", "layers", "count")), (self.hf, ("pi", "dist"))):
            for x in names:
                if x not in d:
                    raise Missing("field with role " + x)

    # ---- term shorthands
    def F(self, base, *names):
        for n in names:
            base = T("field", base, n)
        return base

    def is_pwo(self, t):
        return t.op == "agg" and t.a[0] == self.pwo_name

    def lock_class(self, lock):
        """class of a lock term (by the field it is taken from)"""
        t = lock
        while t.op in ("with",):
            t = t.a[0]
        if t.op == "field":
            return t.a[1]
        if t.op == "lockof":
            return "lockof"
        return None


def where(n):
    return n.where


def peel_field(t):
    """(base, [names]) of nested fields"""
    names = []
    while t.op == "field":
        names.append(t.a[1])
        t = t.a[0]
    return t, names[::-1]


def calls_named(f, *methods):
    for n in f.order:
        if n.call is not None and n.call.name.partition("::")[2] in methods:
            yield n


def guards_in(t):
    return [x for x in subterms(t) if x.op == "guard"]
