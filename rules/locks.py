"""C14: lock order and re-entrance over the flattened control flow of every function of the crate."""
from . import check
from .common import *

LOCK_METHODS = ("read", "write", "lock", "read_recursive", "upgradable_read", "read_arc", "write_arc", "lock_arc")


def lock_types(w):
    pr = w.prog
    cls = {}
    for nm, ti, _ in w.pi.fields:
        for role, f in w.pif.items():
            if f == nm:
                cls[inner_type(pr, ti)] = role
    for nm, ti, _ in w.point.fields:
        if nm == w.pf["nb"]:
            cls[inner_type(pr, ti)] = "links"
    cls.pop(None, None)
    return cls


def erase(s):
    import re
    return re.sub(r"'\w+", "'_", s)


def inner_type(pr, ti):
    """type protected by the lock type ti (through references and Arc)"""
    if ti is None:
        return None
    t = pr.ty(pr.peel(ti))
    if t["k"] == "adt" and t["path"].split("::")[-1] in ("RwLock", "Mutex", "ReentrantMutex", "FairMutex") and t["args"]:
        a = [x for x in t["args"] if not isinstance(x, str)]
        return erase(pr.ts(a[-1]))
    return None


def is_acquire(n):
    c = n.call
    if c is None:
        return False
    ty, _, m = c.name.partition("::")
    return ty in ("RwLock", "Mutex", "ReentrantMutex", "FairMutex") and m in LOCK_METHODS


def owns_guard(pr, ti, depth=0, memo={}):
    if ti is None or depth > 4:
        return False
    k = (id(pr), ti)
    if k in memo:
        return memo[k]
    t = pr.ty(ti)
    r = False
    if t["k"] in ("ref", "ptr"):
        r = False
    elif t["k"] == "adt":
        nm = t["path"].split("::")[-1]
        if nm.endswith("Guard"):
            r = True
        else:
            r = any(owns_guard(pr, a, depth + 1) for a in t["args"] if not isinstance(a, str))
            a = pr.adts.get(t["path"])
            if not r and a is not None and a.local:
                r = any(owns_guard(pr, f[1], depth + 1) for _, fs, _ in a.variants for f in fs)
    elif t["k"] in ("tuple",):
        r = any(owns_guard(pr, a, depth + 1) for a in t.get("args", []) if not isinstance(a, str))
    elif t["k"] == "closure":
        r = False
    memo[k] = r
    return r


def top_guards(t, out=None, depth=0):
    """guards owned by a value (not those it merely derives from)"""
    out = set() if out is None else out
    if depth > 8:
        return out
    if t.op == "guard":
        out.add(t)
    elif t.op == "agg":
        for x in t.a[2:]:
            if isinstance(x, Term):
                top_guards(x, out, depth + 1)
    elif t.op in ("with", "pay", "tryguard", "optmap", "unwrap_or"):
        for x in t.a:
            if isinstance(x, Term):
                top_guards(x, out, depth + 1)
    return out


def held(w, f, n):
    """guards held when node n executes: [(guard, owner local)]"""
    out = set()
    bodies = {c.id: c.body for c in f.ctxs}
    for k, v in n.inn.items():
        if isinstance(k, Term) or len(k) != 2 or k[1] == "res":
            continue
        b = bodies.get(k[0])
        if b is None or not isinstance(k[1], int) or k[1] >= len(b.locals):
            continue
        if not owns_guard(w.prog, b.locals[k[1]]):
            continue
        vs = [v] if v.op != "phi" else f.alts(v)
        for x in vs:
            out |= top_guards(x)
    return out


@check("C14")
def c14(w, rep):
    pr = w.prog
    cls = lock_types(w)
    acq = {}       # (fn, class, mode) -> where
    edges = {}     # (held class, class) -> where, chain
    nroots = 0
    sites = set()
    for b in list(pr.bodies.values()):
        if b.kind == "Closure":
            continue
        f = w.flow(b)
        gcls = {}
        nodes = [n for n in f.order if is_acquire(n)]
        if not nodes:
            continue
        nroots += 1
        for n in nodes:
            ty = inner_type(pr, n.call.argtys[0])
            c = cls.get(ty) or ("lock<%s>" % ty)
            gcls[n.call.dest if n.call.dest.op == "guard" else T("guard", n.call.args[0], "r", n.id)] = (c, n)
        for n in nodes:
            c, _ = gcls[n.call.dest] if n.call.dest in gcls else (None, None)
            if c is None:
                continue
            mode = n.call.dest.a[1]
            sites.add((n.ctx.body.spath, n.span[1] if n.span else 0, c))
            acq.setdefault((n.ctx.body.spath, c, mode), n.where)
            for g in held(w, f, n):
                if g not in gcls:
                    rep.unk("held:%s" % show(g, 3), "a guard whose class is unknown is held", n.where)
                    continue
                hc, hn = gcls[g]
                if hn is n and hc == c:
                    # held from a previous iteration of the loop around n
                    edges.setdefault((hc, c), (b.spath, hn.where, n.where))
                    continue
                edges.setdefault((hc, c), (b.spath, hn.where, n.where))
    for (fn, c, mode), wh in sorted(acq.items()):
        rep.ok("acquire:%s:%s:%s" % (fn, c, mode), wh)
    # self edges
    for (h, c), (root, w1, w2) in sorted(edges.items()):
        if h == c:
            rep.bad("reentrant:%s" % c, "in %s a lock of kind `%s` is requested at %s while one of the same kind taken at %s is still "
                    "held: with a writer waiting in between (or two threads in opposite order) both block for ever" % (root, c, w2, w1), w2)
        else:
            rep.note("order %s -> %s (%s; %s then %s)" % (h, c, root, w1, w2))
    # cycles
    succ = {}
    for (h, c) in edges:
        if h != c:
            succ.setdefault(h, set()).add(c)

    def path(a, b):
        seen, st = set(), [(a, (a,))]
        while st:
            x, p = st.pop()
            for y in succ.get(x, ()):
                if y == b:
                    return p + (y,)
                if y not in seen:
                    seen.add(y)
                    st.append((y, p + (y,)))
        return None
    done = set()
    for (h, c) in sorted(edges):
        if h == c:
            continue
        p = path(c, h)
        if p:
            cyc = frozenset(p)
            if cyc in done:
                continue
            done.add(cyc)
            rep.bad("cycle:" + "-".join(sorted(cyc)), "locks are taken in opposite orders: %s at %s, and %s" % (
                "`%s` then `%s`" % (h, c), edges[(h, c)][2],
                "; ".join("`%s` then `%s` at %s" % (x, y, edges[(x, y)][2]) for x, y in zip(p, p[1:]))), edges[(h, c)][2])
        else:
            rep.ok("order:%s->%s" % (h, c), edges[(h, c)][2])
    rep.count("functions with lock acquisitions in their flattened flow", nroots, 20)
    rep.count("acquisition sites", len(sites), 15)
    rep.count("lock kinds", len({c for _, c, _ in acq}), 4)
    # blocking receive: no sender of the same function alive while draining a channel
    for b in list(pr.bodies.values()):
        if b.kind == "Closure":
            continue
        f = w.flow(b)
        for n in f.calls("Receiver::iter", "Receiver::recv", "IntoIterator::into_iter"):
            t0 = n.call.argtys[0]
            if t0 is None or "Receiver<" not in pr.ts(t0):
                continue
            live = []
            bodies = {c.id: c.body for c in f.ctxs}
            for k, v in n.inn.items():
                if isinstance(k, Term) or len(k) != 2 or not isinstance(k[1], int):
                    continue
                bb = bodies.get(k[0])
                if bb is None or k[1] >= len(bb.locals):
                    continue
                ts = pr.ts(bb.locals[k[1]])
                if ts.startswith("std::sync::mpsc::Sender<") or ts.startswith("std::sync::mpsc::SyncSender<"):
                    live.append(k)
            if n.call.name == "Receiver::recv":
                continue
            rep.req(not live, "drain:%s" % n.ctx.body.spath, "the receiver is drained while a sender is still alive in the same thread: "
                    "the iteration never ends", n.where)
