"""Comprehensions: what a collection holds, as `value for x in A for y in B(x)`, resolved through intermediate collections."""
from .common import *
from .norm import *
from engine.flow import elem as mkelem

SAME = ("copy", "coll", "sorted", "rev", "copied", "into_vec", "chainx", "values_of")
PART = ("filter", "filtermap", "skip", "take", "takewhile", "stepby", "slice", "dedup", "find", "minby")


PW = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8,
      "isize": 8, "u128": 16, "i128": 16, "bool": 1}


def decode(e, ty, x):
    if x.op == "encode" and x.a[0] == e:
        if x.a[1] == ty:
            return x.a[2]
        fl = {"f32", "f64"}
        if PW.get(x.a[1]) == PW.get(ty) and not ({x.a[1], ty} & fl):
            return x.a[2] if (ty[0] == x.a[1][0] == "u") else T("cast", ty, x.a[2])
    return T("decode", e, ty, x)


class Compr:
    __slots__ = ("value", "loops", "partial", "unknown", "empty")

    def __init__(self, value=None, loops=(), partial=(), unknown=(), empty=False):
        self.value, self.loops, self.partial, self.unknown, self.empty = value, list(loops), list(partial), list(unknown), empty

    def __repr__(self):
        return "%s for %s%s%s" % (show(self.value, 6) if self.value is not None else "-", [(show(b, 5), s) for b, s in self.loops],
                                  " partial %s" % self.partial if self.partial else "", " unknown %s" % self.unknown if self.unknown else "")


def subst(t, m, memo=None):
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if any(isinstance(y, Term) for y in t.a):
        a = [subst(y, m, memo) if isinstance(y, Term) else y for y in t.a]
        if any(x is not y for x, y in zip(a, t.a)):
            r = rebuild(t.op, a)
            r = m.get(r, r)
        else:
            r = t
    else:
        r = t
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "field" and a[0].op == "agg":
        v = agg_get(a[0], a[1])
        if v is not None:
            return v
    if op == "elem":
        return mkelem(a[0], a[1])
    if op == "pay":
        return pay(a[0])
    if op == "len":
        return length(a[0])
    if op == "eq":
        return eq(a[0], a[1])
    if op == "lt":
        return lt(a[0], a[1])
    if op == "not":
        return neg(a[0])
    if op == "isok":
        return isok(a[0])
    if op == "decode":
        return decode(*a)
    return T(op, *a)


def skipped(f, site, target):
    s = node_by_id(f, site)
    if s is None or target is None:
        return None
    turns = [n for n in f.order if f.hof_loop.get(n.id, (0, None))[1] == site] + \
        [n for n in f.order for pol, a in n.facts if pol and a.op == "isok" and a.a[0].op == "next" and a.a[0].a[1] == site]
    for e in turns:
        if e is not target and s in f.reach(e.succ, stop=lambda z: z is target):
            return "a turn of the loop at %s can avoid it" % s.where
        if any(z.kind == "return" and z.ctx.parent is None and not failing(f, z) for z in f.reach([e], stop=lambda z: z is s)):
            return "the loop at %s can be left before its end" % s.where
    return None


def failing(f, z):
    return False


def full_index_range(f, rng, base):
    """rng goes over all the indices of base: True/False/None"""
    while rng.op == "rev":
        rng = rng.a[0]
    if rng.op != "agg" or rng.a[0] != "Range":
        return None
    lo, hi = agg_get(rng, "start"), agg_get(rng, "end")
    if lo is I(0) and (hi is length(base) or (hi.op == "len" and same_protected(hi.a[0], base))):
        return True
    return None if opaque(rng) else False


def same_protected(a, b):
    return a is b or (a.op == "prot" and b.op == "prot" and a.a[0].a[0] is b.a[0].a[0])


def enumerate_(f, t, site, depth=0):
    """comprehension of the elements obtained by iterating t at `site`"""
    if depth > 10:
        return Compr(mkelem(t, site), [(t, site)], unknown=["too deep"])
    o = t.op
    if o in SAME:
        c = enumerate_(f, t.a[0], site if o != "coll" else t.a[1], depth + 1)
        if o == "coll":
            g = [mname(n) for n in events(f, t) if mname(n) not in SORTS and mname(n) != "reverse"]
            if g:
                (c.partial if all(x in SHRINK for x in g) else c.unknown).append("/".join(sorted(set(g))))
        return c
    if o == "enum":
        c = enumerate_(f, t.a[0], site, depth + 1)
        c.value = mkelem(t, site)
        return c
    if o == "map":
        c = enumerate_(f, t.a[0], t.a[2] if len(t.a) > 2 else site, depth + 1)
        v = t.a[1]
        s = t.a[2] if len(t.a) > 2 else site
        v = subst(v, {T("elem", t.a[0], s): c.value}) if c.value is not None else v
        c.value = v
        return c
    if o == "flatmap":
        c = enumerate_(f, t.a[0], t.a[2] if len(t.a) > 2 else site, depth + 1)
        return nest(f, c, t.a[1], site, depth)
    if o == "flatten":
        c = enumerate_(f, t.a[0], site, depth + 1)
        return nest(f, c, c.value, site, depth)
    if o in PART:
        c = enumerate_(f, t.a[0], t.a[1] if o == "filter" and isinstance(t.a[1], int) else site, depth + 1)
        if o == "slice":
            if t.a[1] is I(0) and t.a[2] is length(t.a[0]):
                return c
        if o == "filtermap":
            c.value = pay(t.a[1])
        c.partial.append(o)
        return c
    if o == "new" and t.a[0] in ("Vec", "VecDeque"):
        return contents(f, t, depth)
    if o == "agg" and t.a[0] == "array":
        if not t.a[1]:
            return Compr(empty=True)
        return Compr(T("elem", t, site), [(t, site)])
    if o in ("prot", "field", "index", "elem", "param", "agg", "pay", "guard", "with"):
        return Compr(T("elem", t, site), [(t, site)])
    if o == "phi":
        return Compr(T("elem", t, site), [(t, site)], unknown=["phi"])
    return Compr(mkelem(t, site), [(t, site)], unknown=[o])


def nest(f, c, inner, site, depth):
    c2 = enumerate_(f, inner, site, depth + 1)
    return Compr(c2.value, c.loops + c2.loops, c.partial + c2.partial, c.unknown + c2.unknown, c.empty or c2.empty)


def contents(f, v, depth=0):
    ev = list(events(f, v))
    grow = [n for n in ev if mname(n) in GROW]
    shrink = [n for n in ev if mname(n) in SHRINK]
    if not grow:
        return Compr(empty=True)
    if len(grow) > 1:
        return Compr(T("elem", v, 0), [(v, 0)], unknown=["several growth sites"])
    g = grow[0]
    cre = node_by_id(f, v.a[1])
    loops, partial, unknown, m = [], [], [], {}
    around = {s for _, s in loop_nexts(f, cre)} if cre is not None else set()
    sites = [(it, s) for it, s in loop_nexts(f, g) if s not in around]
    last = None
    for it, s in sites:
        it = subst(it, m)
        c = enumerate_(f, it, s, depth + 1)
        # an index loop stands for a loop over the collection indexed
        if it.op in ("agg", "rev"):
            base = indexed_by(f, g, it, s)
            if base is not None:
                fr = full_index_range(f, it, base)
                if fr is True:
                    c = Compr(T("elem", base, s), [(base, s)])
                    m[T("index", base, T("elem", it, s))] = T("elem", base, s)
                elif fr is False:
                    partial.append("range %s" % show(it, 4))
                else:
                    unknown.append("range %s" % show(it, 4))
        elif c.value is not None and c.value is not T("elem", it, s):
            m[T("elem", it, s)] = c.value
        loops += c.loops
        partial += c.partial
        unknown += c.unknown
    order = [s for _, s in sites]
    for i, s in enumerate(order):
        tgt = g if i == len(order) - 1 else node_by_id(f, order[i + 1])
        why = skipped(f, s, tgt)
        if why:
            partial.append(why)
    if order and cre is not None:
        # from the creation, the outermost loop is always entered (judged by the caller through results)
        pass
    if shrink:
        partial.append("/".join(sorted({mname(n) for n in shrink})))
    a = g.call.args
    if mname(g) in ("push", "push_back", "push_front"):
        return Compr(subst(a[1], m), loops, partial, unknown)
    if mname(g) == "insert":
        return Compr(subst(a[-1], m), loops, partial, unknown)
    if mname(g) in ("extend", "append", "extend_from_slice"):
        c = enumerate_(f, subst(a[1], m), g.id, depth + 1)
        return Compr(c.value, loops + c.loops, partial + c.partial, unknown + c.unknown, c.empty)
    return Compr(T("elem", v, 0), [(v, 0)], unknown=[mname(g)])


def indexed_by(f, g, it, s):
    """the collection indexed by the loop variable in what reaches node g"""
    e = T("elem", it, s)
    cands = []
    for n in f.order:
        ts = list(n.call.args) + [n.call.dest] if n.call is not None else []
        ts += list(n.aggs or ())
        for t in ts:
            if not isinstance(t, Term):
                continue
            for x in subterms(t):
                if x.op == "index" and x.a[1] is e and x.a[0] not in cands:
                    cands.append(x.a[0])
                if x.op == "elem" and x.a[1] == s and x.a[0] is not it and x.a[0] not in cands and full_index_range(f, it, x.a[0]) is True:
                    cands.append(x.a[0])
    if len(cands) == 1:
        return cands[0]
    for c in cands:
        if full_index_range(f, it, c) is True:
            return c
    return None


def links_shape(w, f, c, point):
    """c lists, for every list of `point`, every link once, as a Neighbour: (True|False|None, message)"""
    if c.empty:
        return False, "nothing is listed"
    if c.partial:
        return False, "only a part of the links is listed (%s)" % "; ".join(c.partial)
    if c.unknown:
        return None, "not understood: %s" % c
    if len(c.loops) != 2:
        return (None if opaque(c.value) else False), "listed as %s" % c
    (b0, s0), (b1, s1) = c.loops
    ok0 = b0.op == "prot" and b0.a[0].op == "guard" and b0.a[0].a[0] is T("field", point, w.pf["nb"])
    if not ok0:
        return None if opaque(b0) else False, "the links listed are those of %s" % show(b0, 5)
    if not (b1.op == "elem" and b1.a[0] is b0 or b1.op == "index" and b1.a[0] is b0 and b1.a[1].op == "elem" and b1.a[1].a[1] == s0):
        return None if opaque(b1) else False, "the lists visited are %s" % show(b1, 5)
    return neighbour_value(w, c.value, T("elem", b1, s1))


def neighbour_value(w, v, e):
    if v.op != "agg":
        return None if opaque(v) else False, "a link is listed as %s" % show(v, 5)
    pt = T("field", e, w.pwo_pt)
    want = {w.nf["id"]: T("field", pt, w.pf["id"]), w.nf["pid"]: T("field", pt, w.pf["pid"]), w.nf["d"]: T("field", e, w.pwo_d)}
    for k, x in want.items():
        g = agg_get(v, k)
        while g is not None and g.op == "copy":
            g = g.a[0]
        if g is not x:
            return (None if g is None or opaque(g) else False), "the %s of a link is listed as %s instead of %s" % (k, show(g, 5) if g is not None else "?", show(x, 5))
    return True, ""
