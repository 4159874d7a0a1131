"""C01-C05: what a search returns."""
from . import check
from .common import *
from .norm import *


def search_roots(w):
    """[(body, query param, knbn param, ef param, filter param or None)]"""
    pr = w.prog
    out = [(w.fn("search_filter", impl_of="Hnsw"), 2, 3, 4, 5), (w.fn("search", impl_of="Hnsw"), 2, 3, 4, None)]
    b = w.fn_opt("search_possible_filter", impl_of="Hnsw")
    if b is not None and b.exported:
        out.append((b, 2, 3, 4, 5))
    b = w.fn_opt("search_neighbours", impl_of="Hnsw", trait="AnnT")
    if b is not None:
        out.append((b, 2, 3, 4, None))
    return out


def P(i):
    return T("param", i)


def names(w):
    return {w.pwo_name: w.pwo_d, "Neighbour": w.nf["d"]}


def result_alts(f):
    out = []
    for p, r in f.results():
        out.extend(f.alts(r))
    return list(dict.fromkeys(out))


def result_heaps(w, f, alts=None):
    """heaps the returned entries are taken from, through intermediate collections"""
    todo = [coll_of(t) for t in (alts if alts is not None else result_alts(f))]
    seen, heaps = set(), []
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        if c.op == "phi":
            todo += [coll_of(x) for x in f.alts(c)]
            continue
        if c.op != "new":
            continue
        if c.a[0] == "BinaryHeap" and entry_pushes(w, f, c, direct=True):
            heaps.append(c)
        for n in events(f, c, GROW):
            for v in n.call.args[1:]:
                for x in f.alts(v):
                    if w.is_pwo(x) or (x.op == "agg" and x.a[0] == "Neighbour"):
                        d = sign_of(agg_get(x, w.pwo_d if w.is_pwo(x) else w.nf["d"]), None)[1]
                        if d.op == "field":
                            todo.append(coll_of(d.a[0]))
                    else:
                        todo.append(coll_of(x))
    return heaps


def entry_pushes(w, f, heap, direct=False):
    """[(node, entry aggregate, sign, distance term)] of the pushes into the heap; direct: only those computing a distance"""
    out = []
    for n in events(f, heap, ("push",)):
        for x in f.alts(n.call.args[1]):
            if w.is_pwo(x):
                s, d = sign_of(agg_get(x, w.pwo_d), None)
                if direct and d.op != "eval":
                    continue
                out.append((n, x, s, d))
            elif not direct:
                out.append((n, x, None, None))
    return out


@check("C01")
def c01(w, rep):
    nres = 0
    for b, q, k, e, fl in search_roots(w):
        f = w.flow(b)
        for t in result_alts(f):
            nres += 1
            key = "%s:%d" % (b.name, 0)
            bound_and_order(w, rep, f, b, t, P(k))
            not_cut(rep, f, b, t, P(k))
        no_answer(w, rep, f, b, P(k))
        candidates(w, rep, f, b, P(k))
        entry_known(w, rep, f, b)
    # parallel search: what is computed for each request
    b = w.fn("parallel_search", impl_of="Hnsw")
    inner = {x[0].id for x in search_roots(w)}
    f = w.flow(b, stop=inner, key="par")
    n1 = 0
    for n in f.order:
        if n.call is not None and n.call.name in ("Hnsw::search", "Hnsw::search_filter", "Hnsw::search_possible_filter"):
            n1 += 1
            if len(n.call.args) >= 3:
                rep.tri(n.call.args[2] is P(3) if not opaque(n.call.args[2]) else None, "parallel-knbn",
                        "parallel_search asks each search for %s answers and not for the number requested" % show(n.call.args[2], 5), n.where)
    rep.count("results analysed", nres, 4)
    # order of heap entries: both traits agree and compare distances
    for tr in ("Ord", "PartialOrd"):
        for ty, d in names(w).items():
            o = ord_dir(w, tr, ty, d)
            rep.tri(None if o in (None, "missing") else o == "asc", "%s-for-%s" % (tr, ty),
                    "the %s comparison of %s is not by increasing distance" % (tr, ty))


def is_entry(w, t):
    """t is (the content of) a guard on the entry point"""
    return t.op == "prot" and t.a[0].op == "guard" and w.lock_class(t.a[0].a[0]) == w.pif["entry"]


def entry_known(w, rep, f, b):
    """the entry point is only taken after having been found present"""
    for n in f.order:
        if n.call is None or mname(n) not in ("unwrap", "expect", "unwrap_unchecked") or not n.call.args:
            continue
        t = n.call.args[0]
        if not is_entry(w, t):
            continue

        def present(kind, y):
            return kind == "fact" and y[0] and y[1].op == "isok" and is_entry(w, y[1].a[0])
        rep.req(f.holds(n, present), "empty:" + b.name, "%s takes the entry point without testing that the index is not empty: panic on "
                "an empty index" % b.spath, n.where)


def bound_and_order(w, rep, f, b, t, k):
    u = upper(f, t)
    key = "%s:%s" % (b.name, "empty" if u == {I(0)} else "answers")
    wh = "%s:%d" % (b.file, b.line)
    if u is None or (k not in u and I(0) not in u and any(opaque_in(f, x) for x in u)):
        rep.unk("bound:" + key, "length of the answer not understood: %s" % show(t, 6), wh)
    else:
        rep.req(k in u or I(0) in u, "bound:" + key, "%s may return more than the number of neighbours asked: the length of its answer is only "
                "bounded by {%s}" % (b.spath, ", ".join(sorted(show(x, 5) for x in u))), wh, "bounded by %s" % show(k))
    o = Order(w, f, names(w)).of(t)
    if o is None:
        rep.unk("order:" + key, "order of the answer not understood: %s" % show(t, 6), wh)
    else:
        rep.req(o in ("asc", "any"), "order:" + key, "the answer of %s is %s by distance instead of increasing" % (
            b.spath, {"desc": "decreasing", "none": "not ordered"}.get(o, o)), wh, "increasing distance")


def wide(f, hi, src, k):
    """the number hi leaves as many entries of src as there are, or k of them: True / False / None"""
    if hi.op == "min":
        vs = [wide(f, x, src, k) for x in hi.a]
        return False if False in vs else None if None in vs else True
    if hi.op == "phi":
        vs = [wide(f, x, src, k) for x in f.alts(hi)] if resolvable(f, hi) else [None]
        return None if None in vs or False in vs else True
    if k in maxs(hi) or hi is k:
        return True
    ls = {length(src)}
    x = src
    while x.op in ("coll", "map", "copy", "copied", "rev", "sorted", "enum", "into_vec"):
        x = x.a[0]
        ls.add(length(x))
    if hi in ls or maxs(hi) & ls:
        return True
    return None if opaque_in(f, hi) or any(y.op in ("elem", "pay", "prot") for y in subterms(hi)) else False


def not_cut(rep, f, b, t, k):
    """the answers are only cut to the number asked"""
    key = "cut:%s" % b.name
    wh = "%s:%d" % (b.file, b.line)
    x = t
    while True:
        for n in events(f, x):
            m = mname(n)
            if m.startswith("dedup") or m in ("pop", "remove", "swap_remove", "pop_front") and x.op != "new":
                rep.bad(key, "%s removes points from its answer (%s)" % (b.spath, m), n.where)
            elif m == "truncate":
                rep.tri(wide(f, n.call.args[1], x, k), key, "%s cuts its answer to %s points" % (b.spath, show(n.call.args[1], 5)), n.where)
        if x.op == "slice":
            rep.tri(True if x.a[1] is I(0) else None if opaque_in(f, x.a[1]) else False, key, "%s leaves out the first %s points of its answer" % (b.spath, show(x.a[1], 5)), wh)
            rep.tri(wide(f, x.a[2], x.a[0], k), key, "%s cuts its answer to %s points" % (b.spath, show(x.a[2], 5)), wh)
        elif x.op == "take":
            rep.tri(wide(f, x.a[1], x.a[0], k), key, "%s cuts its answer to %s points" % (b.spath, show(x.a[1], 5)), wh)
        elif x.op == "skip":
            rep.tri(True if x.a[1] is I(0) else None if opaque_in(f, x.a[1]) else False, key, "%s leaves out the first %s points of its answer" % (b.spath, show(x.a[1], 5)), wh)
        elif x.op in ("stepby", "dedup"):
            rep.bad(key, "%s leaves points out of its answer (%s)" % (b.spath, x.op), wh)
        if x.op not in KEEP + ("dedup", "stepby") or not x.a or not isinstance(x.a[0], Term):
            break
        x = x.a[0]


def no_answer(w, rep, f, b, k):
    """an answer without points is only given by an index without points (or when none was asked)"""
    for p, t in f.results():
        if upper(f, t) != {I(0)}:
            continue
        p = p if p is not None else f.exit

        def none(kind, y):
            if kind != "fact":
                return False
            pol, a = y
            if a.op == "isok" and is_entry(w, a.a[0]):
                return not pol
            if a.op == "eq" and I(0) in a.a:
                return pol
            if a.op == "lt":
                return pol and a.a[1] is I(1) or not pol and a.a[0] is I(0)
            return False
        if f.holds_at(p, none, 0):
            rep.ok("noanswer:%s" % b.name, p.where)
            continue
        fs = [a for _, a in f.facts_at(p)]
        odd = [a for a in fs if a.op == "phi" or a.op == "call" or any(x.op in ("call", "phi") for x in subterms(a))]
        rep.tri(None if odd else False, "noanswer:%s" % b.name, "%s gives no answer though the index may have points (tests made: %s)" % (
            b.spath, "; ".join(show(a, 5) for a in fs) or "none"), p.where)


def candidates(w, rep, f, b, k):
    """no candidate is dropped while fewer than k are held"""
    for h in result_heaps(w, f):
        ln = length(h)
        pushes = entry_pushes(w, f, h, direct=True)
        if not pushes:
            continue

        def full(kind, x):
            # len(h) >= B with B >= k   (not len(h) < B, or B < len(h))
            if kind != "fact":
                return False
            pol, a = x
            if a.op == "lt" and not pol and a.a[0] is ln:
                return k in maxs(a.a[1])
            if a.op == "lt" and pol and a.a[1] is ln:
                return k in maxs(a.a[0])
            return False
        for n in events(f, h, ("pop",)):
            # a pop after a push must leave at least k
            fs = [(p, a) for p, a in f.facts_at(n) if a.op == "lt" and ln in a.a]
            okp = any(p and a.a[1] is ln and k in maxs(a.a[0]) for p, a in fs)
            if okp:
                rep.ok("keep:%s:pop" % b.name, n.where)
            elif fs and not any(opaque(y) for _, a in fs for y in a.a if y is not ln):
                rep.bad("keep:%s:pop" % b.name, "%s removes candidates while it may hold no more than the number of neighbours asked (tests made: %s)"
                        % (b.spath, "; ".join(("" if p else "not ") + show(a, 6) for p, a in fs)), n.where)
            else:
                rep.unk("keep:%s:pop" % b.name, "removal from the answers without a test on their number", n.where)
        # first visit of a point without keeping it
        for n, x, s, d in pushes:
            pt = agg_get(x, w.pwo_pt)
            nx = loop_nexts(f, n)
            if not nx or pt.op not in ("field", "elem", "index"):
                continue
            it, site = nx[-1]
            sn = node_by_id(f, site)
            for ed in f.order:
                for pol, a in ed.facts:
                    if not pol and a.op == "contains" and a.a[1].op == "field" and a.a[1].a[0] is pt:
                        pn = {m for m, *_ in pushes}

                        def ok(kind, y):
                            if kind == "node":
                                return y in pn
                            if kind == "fact" and y[1].op == "accept" and not y[0]:
                                return True
                            return full(kind, y)
                        r = f.holds(sn, ok, since=ed)
                        thr = [a2 for e2 in f.reach(ed.succ, stop=lambda z: z is sn) for _, a2 in e2.facts if a2.op == "lt" and ln in a2.a]
                        if r:
                            rep.ok("keep:%s:first-visit" % b.name, ed.where)
                        elif all(not opaque(a2.a[0 if a2.a[1] is ln else 1]) for a2 in thr):
                            rep.bad("keep:%s:first-visit" % b.name, "%s may discard a point met for the first time while it holds fewer "
                                    "candidates than the number of neighbours asked" % b.spath, ed.where)
                        else:
                            rep.unk("keep:%s:first-visit" % b.name, "threshold not understood", ed.where)


# ------------------------------------------------------------------ C02
def same_point(w, n, idt, dt, pt, f):
    """verdict on a Neighbour-like triple; (True|False|None, message, entry term)"""
    def base(t, name):
        return t.a[0] if t.op == "field" and t.a[1] == name else None
    a = base(idt, w.pf["id"])
    c = base(pt, w.pf["pid"])
    if a is None and not opaque(idt) and idt.op != "param":
        return False, "id is %s, not the caller's id of a point" % show(idt, 5), None
    if c is None and not opaque(pt) and pt.op != "param":
        return False, "internal id is %s, not that of a point" % show(pt, 5), None
    if a is None or c is None:
        return None, "id terms not understood", None
    if a is not c:
        return False, "the caller's id is taken from %s and the internal id from %s" % (show(a, 5), show(c, 5)), None
    return True, "", a


def dist_verdict(w, f, dt, point, q, depth=0):
    """dt is the distance of `point` (to the query term q if given): (True|False|None, why)"""
    if depth > 6:
        return None, "too deep"
    s, d = sign_of(dt, None)
    if d.op == "field" and d.a[1] == w.pwo_d:
        e = d.a[0]
        if T("field", e, w.pwo_pt) is not point and agg_get(e, w.pwo_pt) is not point:
            return False, "the distance comes from %s but the ids from %s" % (show(e, 5), show(point, 5))
        src = coll_of(e)
        if src.op != "new":
            if q is not None and (src.op in ("prot", "param", "index") and depth == 0 or src.op == "prot"):
                return False, "the distance is that of a link (to the point it is listed by), not the distance to the query"
            if src.op == "prot" or src.op == "param" or (src.op == "index"):
                return (True, "stored link") if s > 0 else (False, "the distance is negated")
            return None, "origin of the entry not understood"
        out = (True, "")
        n = 0
        for node, x, sx, dx in entry_pushes(w, f, src):
            n += 1
            if sx is None:
                r = None, "entry pushed not understood"
                if coll_of(x).op == "new" and coll_of(x) is not src:
                    fd = T("field", x, w.pwo_d)
                    r = dist_verdict(w, f, fd if s > 0 else fnegx(fd), T("field", x, w.pwo_pt), q, depth + 1)
            else:
                if dx.op == "field" and dx.a[1] == w.pwo_d:
                    r = dist_verdict(w, f, agg_get(x, w.pwo_d) if s > 0 else fnegx(agg_get(x, w.pwo_d)), agg_get(x, w.pwo_pt), q, depth + 1)
                else:
                    r = dist_verdict(w, f, agg_get(x, w.pwo_d) if s > 0 else fnegx(agg_get(x, w.pwo_d)), agg_get(x, w.pwo_pt), q, depth + 1)
            if r[0] is False:
                return r
            if r[0] is None:
                out = r
        return out if n else (None, "no push into the heap seen")
    if d.op == "eval":
        if s < 0:
            return False, "the distance is negated"
        vec = [x for x in d.a[1:]]
        datas = [x for x in vec if is_data_of(w, x, point)]
        if not datas:
            if any(opaque(x) for x in vec if x is not q) and not any(linked(w, x, point) for x in vec):
                return None, "vectors not understood"
            return False, "the distance is computed between %s and not with the vector of the point %s" % (
                " and ".join(show(x, 5) for x in vec), show(point, 5))
        others = [x for x in vec if x is not datas[0]]
        if q is not None and not any(x is q for x in others):
            if any(opaque(x) for x in others):
                return None, "query not understood"
            return False, "the distance is not computed to the query but to %s" % show(others[0] if others else datas[0], 5)
        if d.a[0].op == "field" and d.a[0].a[1] == w.hf["dist"] or d.a[0].op == "param":
            return True, ""
        return None, "metric not understood"
    if d.op == "phi":
        # one of several distances, whichever way was taken: each of them has to be the right one
        out = (True, "")
        alts = [a for a in f.alts(d) if a is not d]
        for a in alts:
            if a.op == "phi":
                return None, "distance term not understood: " + show(d, 5)
            r = dist_verdict(w, f, a if s > 0 else fnegx(a), point, q, depth + 1)
            if r[0] is False and not (a.op == "field" and a.a[1] == w.pwo_d or a.op == "eval"):
                r = None, r[1]
            if r[0] is False:
                return r
            if r[0] is None:
                out = r
        return out if alts else (None, "distance term not understood")
    if arith(d):
        return False, "the distance is %s" % show(dt, 5)
    return (None, "distance term not understood: " + show(d, 5)) if opaque(d) or d.op not in ("float", "int", "bin", "max", "min") else (
        False, "the distance is %s" % show(dt, 5))


def fnegx(t):
    return t.a[0] if t.op == "neg" else T("neg", t)


def is_data_of(w, x, point):
    b, ns = peel_field(x)
    t = x
    while t.op == "field":
        if t.a[1] == w.pf["data"] and t.a[0] is point:
            return True
        t = t.a[0]
    return False


def linked(w, x, point):
    """x is the vector of a point found through the links of `point` (or the other way round)"""
    while x.op == "field":
        if x.a[1] == w.pf["data"]:
            o = x.a[0]
            return o is not point and (any(y is point for y in subterms(o)) or any(y is o for y in subterms(point)))
        x = x.a[0]
    return False


def neighbour_aggs(w, f):
    for n in f.order:
        for v in n.aggs:
            if v.op == "agg" and v.a[0] == "Neighbour":
                yield n, v


@check("C02")
def c02(w, rep):
    pr = w.prog
    n = 0
    roots = [(b, P(q)) for b, q, *_ in search_roots(w)]
    for b in pr.bodies.values():
        if b.kind == "Closure" or not b.exported or any(b is r for r, _ in roots):
            continue
        if b.file.endswith(("hnsw.rs", "flatten.rs", "api.rs")) and b.name not in ("insert", "insert_slice"):
            roots.append((b, None))
    seen = set()
    for b, q in roots:
        f = w.flow(b)
        for node, v in neighbour_aggs(w, f):
            idt, dt, pt = agg_get(v, w.nf["id"]), agg_get(v, w.nf["d"]), agg_get(v, w.nf["pid"])
            if idt.op == "param" or node.ctx.body.name in ("default", "clone") or node.ctx.body.impl_trait and node.ctx.body.impl_trait.endswith("Default"):
                if node.ctx.parent is None:
                    if node.ctx.body.name == "new":
                        rep.req(idt is P(1) and dt is P(2) and pt is P(3), "ctor", "Neighbour::new does not store its arguments in the matching "
                                "fields", node.where)
                    continue
            n += 1
            key = "%s:%s" % (b.name, node.ctx.body.name if node.ctx.body.kind != "Closure" else "closure")
            ok, why, point = same_point(w, node, idt, dt, pt, f)
            if ok is not True:
                rep.tri(ok, "pair:" + key, "%s builds an answer whose %s" % (b.spath, why), node.where)
                continue
            qq = q
            r, why = dist_verdict(w, f, dt, point, qq)
            rep.tri(r, "pair:" + key, "%s builds an answer mixing points: %s" % (b.spath, why), node.where)
    rep.count("answers built", n, 6)
    # accessors
    for ty, nm, fld in (("Neighbour", "get_origin_id", w.nf["id"]), ("Neighbour", "get_distance", w.nf["d"]),
                        ("Point", "get_origin_id", w.pf["id"]), ("Point", "get_point_id", w.pf["pid"])):
        b = w.fn(nm, impl_of=ty)
        f = w.flow(b)
        for t in result_alts(f):
            rep.tri(True if t is T("field", P(1), fld) else (None if opaque(t) else False), "accessor:%s::%s" % (ty, nm),
                    "%s::%s returns %s" % (ty, nm, show(t, 5)), "%s:%d" % (b.file, b.line))
    b = w.fn("get_v", impl_of="Point")
    for t in result_alts(w.flow(b)):
        rep.tri(is_data_of(w, t, P(1)) or (None if opaque(t) else False), "accessor:Point::get_v", "Point::get_v returns %s" % show(t, 5))
    # id+distance pairs exported
    for b in pr.bodies.values():
        if b.name == "from" and "PointIdWithOrder" in b.spath and b.kind != "Closure":
            for t in result_alts(w.flow(b)):
                if t.op == "agg" and len(t.a) == 4:
                    vals = set(t.a[2:])
                    want = {T("field", T("field", P(1), w.pwo_pt), w.pf["pid"]), T("field", P(1), w.pwo_d)}
                    rep.tri(vals == want if not any(opaque(x) for x in vals) else None, "pair:PointIdWithOrder::from",
                            "PointIdWithOrder built from an entry has %s" % show(t, 6), "%s:%d" % (b.file, b.line))


# ------------------------------------------------------------------ C03
SETS = ("HashMap", "HashSet", "BTreeMap", "BTreeSet", "IndexMap", "IndexSet")


@check("C03")
def c03(w, rep):
    np = 0
    for b, q, k, e, fl in search_roots(w):
        f = w.flow(b)
        heaps = result_heaps(w, f)
        if not heaps:
            rep.unk("heap:" + b.name, "no heap of answers recognised")
        for h in heaps:
            cre = node_by_id(f, h.a[1])
            pushes = entry_pushes(w, f, h, direct=True)
            outer = []
            for n, x, s, d in pushes:
                np += 1
                pt = agg_get(x, w.pwo_pt)
                first_visit(w, rep, f, b, h, cre, n, pt)
            for n in events(f, h, GROW):
                if not any(n is p[0] for p in pushes):
                    rep.unk("push:%s:other" % b.name, "entries added to the answers not understood", n.where)
    rep.count("pushes into answers", np, 4)
    # two different pushes of one visit: exclusive paths
    for b, q, k, e, fl in search_roots(w)[:1]:
        f = w.flow(b)
        for h in result_heaps(w, f):
            ps = entry_pushes(w, f, h, direct=True)
            for i, (n, x, s, d) in enumerate(ps):
                for m, y, _, _ in ps:
                    if m is n or agg_get(x, w.pwo_pt) is not agg_get(y, w.pwo_pt):
                        continue
                    nx = loop_nexts(f, n)
                    stop = node_by_id(f, nx[-1][1]) if nx else node_by_id(f, h.a[1])
                    if m in f.reach(n.succ, stop=lambda z: z is stop):
                        rep.bad("twice:%s" % b.name, "%s pushes the same point twice in its answers in one visit" % b.spath, m.where)


def pid_keys(w, pt):
    return {T("field", pt, w.pf["pid"]), T("field", pt, w.pf["id"]), pt}


def first_met(w, pt, pol0=None):
    """the goal of holds: pt was not among the points visited"""
    keys = pid_keys(w, pt)

    def isnew(kind, x):
        if kind != "fact":
            return False
        pol, a = x
        if not pol and a.op == "contains" and a.a[1] in keys and a.a[0].op == "new":
            return True
        if pol and a.op == "call" and a.a[0].endswith("Set::insert") and a.a[3] in keys:
            return True
        if not pol and a.op == "isok" and a.a[0].op == "call" and a.a[0].a[0].endswith("Map::insert") and a.a[0].a[3] in keys:
            return True
        if not pol and a.op == "isok" and a.a[0].op == "mapget" and a.a[0].a[1] in keys:
            return True
        return False
    return isnew


def first_visit(w, rep, f, b, h, cre, n, pt):
    keys = pid_keys(w, pt)
    marks = [m for m in f.order if m.call is not None and mname(m) == "insert" and m.call.name.split("::")[0] in SETS and
             m.call.args[0].op == "new"]
    mine = [m for m in marks if len(m.call.args) > 1 and m.call.args[1] in keys]
    looping = in_cycle(f, n, lambda z: z is cre)
    key = "visit:%s:%s" % (b.name, "loop" if looping else "entry")

    isnew = first_met(w, pt)
    if looping:
        nx = loop_nexts(f, n)
        if not nx:
            rep.unk(key, "loop of this push not understood", n.where)
            return
        site = node_by_id(f, nx[-1][1])
        tested = f.holds(n, isnew, since=site)
        inset = {m for m in mine}
        marked = f.holds(n, lambda kd, y: kd == "node" and y in inset, since=site) or \
            must_pass(f, n, inset, site)
        guards = [a for pol, a in f.facts_at(n) if a.op in ("contains", "call", "mapget") or (a.op == "isok" and a.a[0].op in ("call", "mapget"))]
        if tested and marked:
            rep.ok(key, n.where, "dominated by a first-visit test of the same point, and marked")
        elif marks:
            # the technique is a visited set: the test or the mark is missing, or about another point
            what = ("is not preceded by a test that this point was not visited" if not tested else "does not mark the point visited")
            if not tested and any(opaque(a) and a.op == "call" and not a.a[0].endswith("insert") for a in guards):
                rep.unk(key, "visit test not understood", n.where)
            else:
                rep.bad(key, "in %s a push into the answers %s: a point met twice would be returned twice" % (b.spath, what), n.where)
        else:
            rep.unk(key, "no visited set recognised", n.where)
        # the set must live as long as the heap and never forget
        for m in mine:
            c2 = node_by_id(f, m.call.args[0].a[1])
            if c2 is not None and in_cycle(f, c2, lambda z: z is cre):
                rep.bad("scope:%s" % b.name, "the visited set of %s is created anew while the answers are kept" % b.spath, c2.where)
            for ev in events(f, m.call.args[0], ("remove", "clear", "retain", "remove_entry", "drain")):
                if in_cycle(f, ev, lambda z: z is cre):
                    rep.bad("forget:%s" % b.name, "visited points are forgotten during the search in %s" % b.spath, ev.where)
    else:
        inset = {m for m in mine}
        loop_pushes = [p for p, x, *_ in entry_pushes(w, f, h, direct=True) if in_cycle(f, p, lambda z: z is cre)]
        ok = all(f.holds(p, lambda kd, y: kd == "node" and y in inset, since=cre) for p in loop_pushes)
        if ok and inset:
            rep.ok(key, n.where, "marked visited before any other push")
        elif not marks:
            rep.unk(key, "no visited set recognised", n.where)
        else:
            rep.bad(key, "in %s the entry point is pushed into the answers without being marked visited" % b.spath, n.where)


def must_pass(f, n, targets, stop):
    """every way from n to `stop` passes one of targets"""
    return stop not in f.reach(n.succ, stop=lambda z: z in targets)


# ------------------------------------------------------------------ C04
def filter_implies(f, r, fil, goal, depth=0):
    """boolean r true implies (no filter given, or goal): True / False / None"""
    if depth > 6:
        return None
    if r is FALSE:
        return True
    if r is goal:
        return True
    if r is TRUE:
        return False
    if r.op == "unwrap_or":
        opt, dflt = r.a
        if opt.op == "optmap" and opt.a[0] is fil:
            return filter_implies(f, opt.a[1], fil, goal, depth + 1)      # the default applies when no filter is given
        return None
    if r.op == "bin" and r.a[0] == "BitOr":
        xs = [x for x in r.a[1:]]
        if any(x is neg(isok(fil)) for x in xs):
            rest = [x for x in xs if x is not neg(isok(fil))]
            return all(filter_implies(f, x, fil, goal, depth + 1) is True for x in rest) or None
        rs = [filter_implies(f, x, fil, goal, depth + 1) for x in xs]
        return True if all(x is True for x in rs) else (False if False in rs else None)
    if r.op == "bin" and r.a[0] == "BitAnd":
        rs = [filter_implies(f, x, fil, goal, depth + 1) for x in r.a[1:]]
        return True if True in rs else (False if all(x is False for x in rs) else None)
    if r.op == "isok" and r.a[0].op == "optmap" and r.a[0].a[0] is fil:
        o = r.a[0]
        return True if o.a[2] == "filter" and o.a[3] is goal else None
    if r.op == "phi":
        out = True
        for p, v in f.phi_in.get(r, ()):
            if v is FALSE:
                continue

            def pr(kind, y):
                return kind == "fact" and ((y[0] and y[1] is goal) or (not y[0] and y[1] is isok(fil)))
            x = filter_implies(f, v, fil, goal, depth + 1)
            if x is True:
                continue
            if f.holds_at(p, pr, 0):
                continue
            if x is False:
                return False
            out = None
        return out
    if r.op == "not":
        x = r.a[0]
        if x is goal:
            return False
        if x is isok(fil):
            return True
        return None
    if r.op == "accept":
        return False
    return None if opaque(r) else False


def plain_test(f, a, fil):
    """a test on numbers which has nothing to do with the presence of a filter"""
    return a.op in ("lt", "eq") and not any(x is fil or x.op in ("accept", "isok", "phi", "call", "unk", "other") for x in subterms(a))


def filter_none(f, r, fil, depth=0):
    """value of r when no filter is given: True / False / None"""
    if r is TRUE or r is FALSE:
        return r is TRUE
    if depth > 6:
        return None
    if r.op == "unwrap_or" and r.a[0].op == "optmap" and (r.a[0].a[0] is fil or isok(r.a[0].a[0]) is FALSE):
        return filter_none(f, r.a[1], fil, depth + 1)
    if r.op == "not":
        if r.a[0] is isok(fil):
            return True
        x = filter_none(f, r.a[0], fil, depth + 1)
        return None if x is None else not x
    if r is isok(fil):
        return False
    if r.op == "isok" and r.a[0].op == "optmap" and r.a[0].a[0] is fil:
        return False
    if r.op == "bin" and r.a[0] in ("BitOr", "BitAnd"):
        xs = [filter_none(f, x, fil, depth + 1) for x in r.a[1:]]
        if r.a[0] == "BitOr":
            return True if True in xs else (None if None in xs else False)
        return False if False in xs else (None if None in xs else True)
    if r.op == "phi":
        vals = set()
        for p, v in f.phi_in.get(r, ()):
            if f.holds_at(p, lambda k, y: k == "fact" and y[0] and y[1] is isok(fil), 0):
                continue
            vals.add(filter_none(f, v, fil, depth + 1))
        return vals.pop() if len(vals) == 1 else False if False in vals and None not in vals else None
    if plain_test(f, r, fil):
        return False                        # drops elements on another ground
    return None


def entry_point_term(w, x):
    """the point an entry (or element) stands for"""
    if w.is_pwo(x):
        return agg_get(x, w.pwo_pt)
    return T("field", x, w.pwo_pt)


def accepted(w, f, t, fil, depth=0):
    """every element of t is accepted by the filter when one is given: (True|False|None, why)"""
    if depth > 10:
        return None, "too deep"
    odd = None
    for n in events(f, t, ("retain", "retain_mut")):
        r, e = f.filter_ret.get(n.id), elem(t, f.hof_site.get(n.id, n.id))
        ids = [T("field", T("field", e, w.pwo_pt), w.pf["id"]), T("field", e, w.nf["id"])]
        vs = [filter_implies(f, r, fil, T("accept", pay(fil), i)) for i in ids] if r is not None else [None]
        start = (made(f, t) if t.op != "new" else []) + list(events(f, t, GROW))
        nofil = (False, isok(fil))
        if True in vs and start and all(f.must_reach(g, lambda x: x is n or nofil in x.facts) for g in start):
            return True, ""
        odd = n
    r = accepted1(w, f, t, fil, depth)
    if r[0] is False and odd is not None:
        return None, "removal at %s" % odd.where
    return r


def accepted1(w, f, t, fil, depth):
    if t.op == "filtermap":
        e = [elem(t.a[0], t.a[2])]
        if e[0].op == "agg" and agg_get(e[0], w.nf["id"]) is not None:
            ids = [agg_get(e[0], w.nf["id"])]
        else:
            ids = [T("field", T("field", e[0], w.pwo_pt), w.pf["id"]), T("field", e[0], w.nf["id"])]
        goals = [T("accept", pay(fil), i) for i in ids]

        def pr(kind, y):
            return kind == "fact" and ((y[0] and y[1] in goals) or (not y[0] and y[1] is isok(fil)))
        if f.fact_sat((True, isok(t.a[1])), pr, 0):
            return True, ""
        x = accepted(w, f, t.a[0], fil, depth + 1)
        return x if x[0] is not False else (None, "the closure of filter_map keeps elements on %s" % show(t.a[1], 5))
    if t.op == "filter":
        r = f.filter_ret.get(t.a[1])
        e = elem(t.a[0], t.a[1])
        if r is not None:
            goal = T("accept", pay(fil), T("field", T("field", e, w.pwo_pt), w.pf["id"]))
            goal2 = T("accept", pay(fil), T("field", e, w.nf["id"]))
            for g in (goal, goal2):
                v = filter_implies(f, r, fil, g)
                if v is True:
                    return True, ""
            if e.op == "agg":
                v = filter_implies(f, r, fil, T("accept", pay(fil), agg_get(e, w.nf["id"]) or UNDEF))
                if v is True:
                    return True, ""
            b, why = accepted(w, f, t.a[0], fil, depth + 1)
            if b is not False:
                return b, why
            return (None, "closure not understood") if filter_implies(f, r, fil, goal) is None else (
                False, "the last stage keeps elements on `%s`" % show(r, 6))
        return None, "filter stage not understood"
    if t.op in KEEP:
        return accepted(w, f, t.a[0], fil, depth + 1)
    if t.op == "new":
        grow = list(events(f, t, GROW))
        out = True, ""
        for n in grow:
            if mname(n) == "reserve":
                continue
            for v in f.alts(n.call.args[1]) if len(n.call.args) > 1 else []:
                ids = set()
                if w.is_pwo(v):
                    ids = {T("field", agg_get(v, w.pwo_pt), w.pf["id"])}
                    d = sign_of(agg_get(v, w.pwo_d), None)[1]
                elif v.op == "agg" and v.a[0] == "Neighbour":
                    ids = {agg_get(v, w.nf["id"])}
                    d = agg_get(v, w.nf["d"])
                elif v.op in ("elem", "index", "pay"):
                    ids = {T("field", T("field", v, w.pwo_pt), w.pf["id"])}
                    d = T("field", v, w.pwo_d)
                else:
                    out = None, "pushed value not understood"
                    continue

                def pr(kind, y):
                    return kind == "fact" and ((y[0] and y[1].op == "accept" and y[1].a[0] is pay(fil) and y[1].a[1] in ids) or
                                               (not y[0] and y[1] is isok(fil)))
                if f.holds(n, pr):
                    continue
                # the element comes from a collection of accepted elements
                if d.op == "field" and d.a[1] == w.pwo_d and coll_of(d.a[0]) is not t:
                    src = d.a[0].a[0] if d.a[0].op in ("elem", "index") else coll_of(d.a[0])
                    x = accepted(w, f, src, fil, depth + 1)
                    if x[0] is not True:
                        if x[0] is False:
                            return x
                        out = x
                    continue
                acc = [a for p, a in f.facts_at(n) if a.op in ("call", "phi")]
                return False, "pushed at %s without having been accepted" % n.where
        return out
    if t.op == "agg" and t.a[0] == "array" and not t.a[1]:
        return True, ""
    return None, "not understood: " + show(t, 5)


@check("C04")
def c04(w, rep):
    nf = 0
    for b, q, k, e, fl in search_roots(w):
        f = w.flow(b)
        wh = "%s:%d" % (b.file, b.line)
        fil = P(fl) if fl else None
        for t in result_alts(f):
            key = "%s:%s" % (b.name, "empty" if upper(f, t) == {I(0)} else "answers")
            if fil is not None:
                nf += 1
                v, why = accepted(w, f, t, fil)
                rep.tri(v, "accepted:" + key, "%s may return a point its filter rejects: %s" % (b.spath, why), wh)
            # without filter nothing is filtered out
            x = t
            while x.op in KEEP:
                if x.op == "filter":
                    r = f.filter_ret.get(x.a[1])
                    v = filter_none(f, r, fil if fil is not None else T("none")) if r is not None else None
                    rep.tri(v, "nofilter:" + key, "%s drops points from the answer though no filter is given" % b.spath, wh)
                x = x.a[0]
            # no panic on the bounds of the slice
            for x in subterms(t):
                if x.op == "slice":
                    lo, hi = x.a[1], x.a[2]
                    ln = length(x.a[0])
                    ok = ln in mins(hi)
                    if not ok and lo is FALSE:
                        for n in f.order:
                            if n.call is not None and n.call.dest is x:
                                ok = any((pol and a.op == "lt" and a.a[0] is hi and a.a[1] is ln) or
                                         (not pol and a.op == "lt" and a.a[0] is ln and a.a[1] is hi) for pol, a in f.facts_at(n))
                    rep.tri(ok or (None if opaque(hi) else False), "range:" + key,
                            "%s takes the %s first answers though there may be fewer: panic" % (b.spath, show(hi, 5)), wh)
        never_empty(w, rep, f, b)
    rep.count("results of filtered searches analysed", nf, 2)
    impls(w, rep)


def never_empty(w, rep, f, b):
    """unwrap of peek on a heap of answers: the heap cannot be empty there"""
    for h in result_heaps(w, f):
        ln = length(h)
        pushes = {n for n in events(f, h, ("push",))}
        shr = [n for n in events(f, h, ("pop", "clear", "truncate", "drain", "retain"))]
        for n in f.order:
            if n.call is None or mname(n) not in ("unwrap", "expect") or not n.call.args or n.call.args[0].op != "peek" or \
                    n.call.args[0].a[0] is not h:
                continue
            pk = n.call.args[0]

            def nonempty(kind, y):
                if kind != "fact":
                    return False
                pol, a = y
                if pol and a.op == "isok" and a.a[0] is pk:
                    return True
                if a.op == "eq" and ln in a.a and FALSE in a.a and not pol:
                    return True
                if a.op == "eq" and ln in a.a and pol and any(x.op == "int" and x.a[0] > 0 for x in a.a):
                    return True
                if a.op == "lt" and pol and a.a[1] is ln:
                    return True
                return False
            key = "peek:%s:%s" % (b.name, "guarded" if f.holds(n, nonempty) else "invariant")
            if f.holds(n, nonempty):
                rep.ok(key, n.where)
                continue
            # pushed at least once before, and every removal leaves one
            ok = f.holds(n, lambda kd, y: kd == "node" and y in pushes)
            verdict = True if ok else None
            for s in shr:
                if n not in f.reach(s.succ, stop=lambda z: z in pushes):
                    continue
                good = False
                fs = [(p, a) for p, a in f.facts_at(s) if a.op == "lt" and ln in a.a]
                for p, a in fs:
                    if mname(s) == "pop" and p and a.a[1] is ln and any(x.op == "int" and x.a[0] >= 1 for x in maxs(a.a[0])):
                        good = True
                if not good:
                    if mname(s) == "pop" and fs and not any(opaque(x) for _, a in fs for x in a.a if x is not ln):
                        rep.bad(key, "%s may empty the heap of answers (removal at %s tested only by %s) and then panics reading its "
                                "top" % (b.spath, s.where, "; ".join(show(a, 5) for _, a in fs)), n.where)
                        verdict = False
                        break
                    verdict = None
            if verdict is True:
                rep.ok(key, n.where)
            elif verdict is None:
                rep.unk(key, "cannot show the heap of answers is not empty", n.where)


def impls(w, rep):
    """FilterT implementations"""
    n = 0
    for b in w.prog.bodies.values():
        if b.kind == "Closure" or not (b.impl_trait or "").endswith("FilterT"):
            continue
        n += 1
        f = w.flow(b)
        ty = w.prog.ts(b.impl_self)
        isvec = "Vec<" in ty or "[" in ty or "HashSet" in ty
        if isvec:
            def has(x):
                return (x.op == "isok" and x.a[0].op == "call" and x.a[0].a[0].split("::")[-1] == "binary_search" and x.a[0].a[2] is P(1)
                        and x.a[0].a[3] is P(2)) or (x.op == "contains" and x.a[0] is P(1) and x.a[1] is P(2)) or \
                       (x.op == "any" and x.a[0] is P(1) and x.a[1].op == "eq" and P(2) in x.a[1].a)

            def yes(kind, y):
                return kind == "fact" and y[0] and has(y[1])

            def no(kind, y):
                return kind == "fact" and not y[0] and has(y[1])
            r = f.result()
            if r.op == "phi" and f.fact_sat((True, r), yes, 0) and f.fact_sat((False, r), no, 0):
                rep.ok("impl:ids", "%s:%d" % (b.file, b.line))
                continue

            def member(kind, y):
                return kind == "fact" and (y[0] and (has(y[1]) or (y[1].op in ("eq", "any", "contains") and P(2) in subterms(y[1]))))

            def read(t, depth=0):
                """made of tests on the list and on the id only"""
                if t.op == "phi":
                    return depth < 6 and resolvable(f, t) and all(read(v, depth + 1) and all(read(a, depth + 1) for _, a in (
                        f.facts_at(p) if p is not None else ())) for p, v in f.phi_in[t])
                if t.op == "call":
                    return t.a[0].split("::")[-1] == "binary_search"
                return t.op not in ("unk", "other", "undef", "init", "cparam") and all(read(x, depth) for x in t.a if isinstance(x, Term))
            if r not in (TRUE, FALSE) and not f.fact_sat((True, r), member, 0) and read(r) and not any(
                    x.op in ("contains", "any") for x in subterms(r)) and not has(r):
                rep.bad("impl:ids", "%s may accept an id which is not in the list: %s" % (b.spath, show(r, 6)), "%s:%d" % (b.file, b.line))
                continue
        for t in result_alts(f):
            wh = "%s:%d" % (b.file, b.line)
            key = "impl:" + ("ids" if isvec else "closure")
            v = True
            x = t
            if x.op == "not":
                v, x = False, x.a[0]
            if isvec:
                good = (x.op == "isok" and x.a[0].op == "call" and x.a[0].a[0].split("::")[-1] == "binary_search" and x.a[0].a[2] is P(1)
                        and x.a[0].a[3] is P(2)) or (x.op == "contains" and x.a[0] is P(1) and x.a[1] is P(2)) or \
                       (x.op == "any" and x.a[0] is P(1) and x.a[1].op == "eq" and P(2) in x.a[1].a)
            else:
                good = x.op == "call" and x.a[0].split("::")[0] in ("Fn", "FnMut") and x.a[2] is P(1) and agg_get(x.a[3], "0") is P(2)
            if good:
                rep.req(v, key, "%s accepts exactly the ids it should reject" % b.spath, wh)
            elif t in (TRUE, FALSE) and len(result_alts(f)) == 1:
                rep.bad(key, "%s does not depend on the id" % b.spath, wh)
            else:
                rep.unk(key, "not understood: " + show(t, 6), wh)
    rep.count("FilterT implementations", n, 2)


# ------------------------------------------------------------------ C05
@check("C05")
def c05(w, rep):
    b = w.fn("parallel_search", impl_of="Hnsw")
    inner = {x[0].id for x in search_roots(w)}
    f = w.flow(b, stop=inner, key="par")
    par_search(w, rep, f, b, 2, 3, 4)
    b2 = w.fn_opt("parallel_search_neighbours", impl_of="Hnsw", trait="AnnT")
    if b2 is not None:
        f2 = w.flow(b2, stop=inner | {b.id}, key="par")
        cs = list(f2.calls("Hnsw::parallel_search"))
        if cs:
            for c in cs:
                a = c.call.args
                rep.tri(None if len(a) < 4 or any(opaque(x) for x in a) else tuple(a[:4]) == (P(1), P(2), P(3), P(4)), "adapter",
                        "AnnT::parallel_search_neighbours does not pass its arguments unchanged: %s" % [show(x, 4) for x in a], c.where)
        else:
            par_search(w, rep, f2, b2, 2, 3, 4)


def moved(t):
    """the sequence is reordered or displaced"""
    while t.op in KEEP + ("chainx", "stepby"):
        if t.op in ("rev", "skip", "filter", "filtermap", "stepby", "sorted"):
            return True
        t = t.a[0]
    return False


def same_index(tag, query, datas):
    """tag is the position in datas of the element query: True/False/None"""
    if query.op == "elem" and query.a[0] is not datas and coll_of(query) is datas and moved(query.a[0]) and tag.op == "elem" and not moved(tag.a[0]):
        return False
    if query.op == "elem" and query.a[0] is datas:
        s = query.a[1]
        if tag.op == "elem" and tag.a[1] == s and tag.a[0].op == "agg" and tag.a[0].a[0] == "Range" and tag.a[0].a[2] is FALSE:
            return True
        if tag.op == "pos" and tag.a[1] == s and coll_of(tag.a[0]) is datas:
            return not moved(tag.a[0])
        if tag.op in ("elem", "pos"):
            return False
        if tag.op in ("int",) or not opaque(tag):
            return False
        return None
    if query.op == "index" and query.a[0] is datas:
        return True if query.a[1] is tag else (None if opaque(tag) or opaque(query.a[1]) else False)
    return None


def par_search(w, rep, f, b, pd, pk, pe):
    datas = P(pd)
    wh = "%s:%d" % (b.file, b.line)
    calls = [n for n in f.order if n.call is not None and n.call.name in ("Hnsw::search", "Hnsw::search_filter", "Hnsw::search_possible_filter")]
    rep.count("sequential searches called", len(calls), 1)
    results = {}
    for n in calls:
        a = n.call.args
        results[n.call.dest] = n
        for i, p, nm in ((2, pk, "number of neighbours"), (3, pe, "search width")):
            rep.tri(True if a[i] is P(p) else (None if opaque(a[i]) else False), "args:%s:%s" % (b.name, nm),
                    "each request of the parallel search uses %s as %s, not the one given" % (show(a[i], 5), nm), n.where)
        rep.tri(True if coll_of(a[1]) is datas else (None if opaque(a[1]) else False), "args:%s:query" % b.name,
                "the vector searched is %s" % show(a[1], 5), n.where)
        if len(a) > 4:
            rep.tri(isok(a[4]) is FALSE or None, "args:%s:filter" % b.name, "a filter is used", n.where)
    # what is sent / collected with the result
    sent = []
    for n in f.order:
        if n.call is None:
            continue
        for x in n.call.args:
            if x.op == "agg" and x.a[0] == "tuple" and mname(n) in ("send", "push", "try_send", "push_back"):
                comps = x.a[2:]
                for c in comps:
                    if any(r in results for r in f.alts(c)):
                        sent.append((n, x, [y for y in comps if y is not c][0] if len(comps) == 2 else None, c))
    alts = result_alts(f)
    for t in alts:
        # direct indexed map keeps the order
        x = t
        while x.op == "coll":
            x = x.a[0]
        if x.op == "map" and any(r in results for r in f.alts(x.a[1])):
            src = x.a[0]
            ok = src is datas or (src.op == "coll" and coll_of(src) is datas)
            seq = True
            y = src
            while y.op in KEEP:
                if y.op in ("rev", "filter", "skip", "take", "sorted", "filtermap"):
                    seq = False
                y = y.a[0]
            if src.op == "agg" and src.a[0] == "Range":
                q = results[[r for r in f.alts(x.a[1]) if r in results][0]].call.args[1]
                ok = q.op == "index" and q.a[0] is datas and q.a[1] is elem(src, x.a[2]) and src.a[2] is FALSE and src.a[3] is length(datas)
                rep.tri(ok or None, "slots:" + b.name, "answers are not in the order of the queries", wh)
                continue
            rep.tri(seq if y is datas else None, "slots:" + b.name, "the answers are not those of all the queries in order: %s" % show(src, 6), wh)
            continue
        # results travel with a tag
        if not sent:
            rep.unk("tag:" + b.name, "how answers travel is not understood", wh)
            continue
        for n, x, tag, c in sent:
            nx = loop_nexts(f, n)
            if nx:
                it, site = nx[-1]
                all_ = {m for m, *_ in sent}
                rep.req(not may_pass(f, site, all_), "each:" + b.name,
                        "the answer to some query may never be handed over to the calling thread", n.where)
                rep.req(whole(it), "all:" + b.name, "only a part of the queries is searched", n.where)
            q = results[[r for r in f.alts(c) if r in results][0]].call.args[1]
            rep.tri(same_index(tag, q, datas) if tag is not None else None, "tag:" + b.name,
                    "the answer is tagged with %s which is not the index of the query searched (%s)" % (show(tag, 6), show(q, 6)), n.where)
        tagpos = {x.a[1][[i for i, y in enumerate(x.a[2:]) if y is tag][0]] for n, x, tag, c in sent if tag is not None}
        tp = tagpos.pop() if len(tagpos) == 1 else "0"
        placement(w, rep, f, b, t, datas, tp, "1" if tp == "0" else "0", wh)


def placement(w, rep, f, b, t, datas, tp, vp, wh):
    """the returned vector holds at i the value received with tag i"""
    key = "slots:" + b.name
    n_ = length(datas)
    x = t
    while x.op in ("coll",) and x.a[0].op in ("coll", "map"):
        x = x.a[0]
    if x.op == "map":
        v = strip_copy(x.a[1])
        src = x.a[0]
        e = elem(src, x.a[2])
        # map over the indices
        if src.op == "agg" and src.a[0] == "Range":
            chk_count(rep, key, src, n_, b, wh)
            chk_lookup(w, rep, f, key, v, e, tp, vp, b, wh)
            return
        root = src
        while root.op in KEEP and root.op not in ("coll",):
            root = root.a[0]
        if v.op == "field" and v.a[1] == vp:
            # values in the order of the sequence src: it must have been sorted by tag
            r = sorted_by(f, src, tp)
            rep.tri(r, key, "the answers are returned in the order in which they arrived, not in the order of the queries", wh)
            return
        rep.unk(key, "not understood: " + show(t, 6), wh)
        return
    if x.op in ("new", "from_elem") and (x.op == "from_elem" or x.a[0] == "Vec"):
        writes = indexed_stores(f, x)
        grow = list(events(f, x, GROW))
        if not writes and not grow:
            rep.unk(key, "no write into the returned vector recognised", wh)
        for node, i, v in writes:
            v = strip_copy(v)
            if v.op == "field" and v.a[1] == vp:
                rep.tri(True if i is T("field", v.a[0], tp) else (None if opaque_ex(i) else False), key,
                        "an answer is stored at %s and not at the index of its query" % show(i, 5), node.where)
            else:
                ag = [y for y in subterms(v)]
                rep.unk(key, "stored value not understood: " + show(v, 5), node.where)
        for g in grow:
            if writes and mname(g) in ("resize", "resize_with"):
                continue
            v = strip_copy(g.call.args[-1])
            nx = loop_nexts(f, g)
            if not nx:
                rep.unk(key, "answers gathered in a way not understood", g.where)
                continue
            it, site = nx[-1]
            if not once_per(f, g, site):
                rep.unk(key, "several answers per turn", g.where)
                continue
            e = elem(it, site)
            if it.op == "agg" and it.a[0] == "Range":
                chk_count(rep, key, it, n_, b, g.where)
                skip = may_skip(f, g, site)
                if skip:
                    rep.bad(key, "some query may get no slot in the answer", g.where)
                chk_lookup(w, rep, f, key, v, e, tp, vp, b, g.where)
            elif v.op == "field" and v.a[1] == vp:
                rep.tri(sorted_by(f, it, tp), key, "the answers are returned in the order in which they arrived, not in the order of the queries",
                        g.where)
            else:
                rep.unk(key, "pushed value not understood: " + show(v, 5), g.where)
        return
    rep.unk(key, "not understood: " + show(t, 6), wh)


def opaque_ex(t):
    """opaque apart from the channel the values come from"""
    for x in subterms(t):
        if x.op in ("phi", "other", "undef", "cparam", "init"):
            return True
        if x.op == "call" and not x.a[0].endswith("channel") and not x.a[0].endswith("unbounded"):
            return True
    return False


def may_pass(f, site, goals):
    """a turn of the loop at `site` may end without passing a node of goals"""
    from .insert import turn_edges
    s = node_by_id(f, site)
    return any(s in f.reach([ed], stop=lambda z: z in goals) for ed in turn_edges(f, site))


def may_skip(f, g, site):
    """a turn of the loop at `site` may end without passing g"""
    s = node_by_id(f, site)
    body = [n for n in s.succ]
    for ed in f.order:
        for pol, a in ed.facts:
            if pol and a.op == "isok" and a.a[0].op == "next" and a.a[0].a[1] == site:
                return s in f.reach([ed], stop=lambda z: z is g)
    return False


def indexed_stores(f, x):
    out = []
    for n in f.order:
        for pl, v in n.stores:
            if pl.op == "index" and pl.a[0] is x:
                out.append((n, pl.a[1], v))
    return out


def strip_copy(t):
    while t.op in ("copy", "copied"):
        t = t.a[0]
    return t


def chk_count(rep, key, rng, n_, b, wh):
    ok = rng.a[2] is FALSE and rng.a[3] is n_
    rep.tri(ok or (None if opaque(rng.a[3]) else False), key + ":count", "%s answers %s..%s and not one slot for each query" % (
        b.spath, show(rng.a[2], 4), show(rng.a[3], 4)), wh)


def sorted_by(f, seq, tp):
    """a collection in seq's construction has been sorted by the tag field"""
    x = seq
    ok = None
    flipd = False
    while x.op in KEEP:
        if x.op == "rev":
            flipd = not flipd
        for n in events(f, x):
            m = mname(n)
            if m in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
                r = f.filter_ret.get(n.id)
                if r is not None and r.op == "field" and r.a[1] == tp:
                    ok = True
            elif m in ("sort_by", "sort_unstable_by"):
                o, key = comparator(f, n)
                if o == "asc" and key and key[-1] == tp:
                    ok = True
                elif o == "desc" and key and key[-1] == tp:
                    return flipd or False
            elif m in ("sort", "sort_unstable"):
                ok = ok or None
                return None
        x = x.a[0]
    if ok is None:
        return False
    return ok and not flipd


def chk_lookup(w, rep, f, key, v, e, tp, vp, b, wh):
    """v is the received value whose tag is e"""
    v = strip_copy(v)
    if v.op == "field" and v.a[1] == vp and v.a[0].op == "index":
        coll, i = v.a[0].a
        # i found in a map from tag to rank
        j = i
        kv = False
        while j.op in ("copy", "pay", "field"):
            if j.op == "field":
                if j.a[1] != "1":
                    break
            j = j.a[0]
        if j.op in ("mapget", "mapgetkv") and j.a[0].op == "new":
            m, k = j.a
            if k is not e:
                rep.tri(None if opaque(k) else False, key, "the slot %s is filled with the answer to query %s" % (show(e, 4), show(k, 4)), wh)
                return
            for ins in events(f, m, ("insert",)):
                kk, vv = ins.call.args[1], ins.call.args[2]
                good = kk.op == "field" and kk.a[1] == tp and vv.op == "pos" and coll_of(vv.a[0]) is coll_of(coll)
                good2 = good and coll_of(kk.a[0]) is coll_of(coll)
                rep.tri(True if good2 else (None if opaque_ex(kk) or opaque_ex(vv) else False), key,
                        "the rank table is filled with %s -> %s" % (show(kk, 5), show(vv, 5)), ins.where)
            return
        if i is e:
            rep.tri(sorted_by(f, coll, tp), key, "the answers are returned in the order in which they arrived, not in the order of the queries", wh)
            return
        if i.op == "position":
            r = i.a[1]
        rep.unk(key, "rank of the answer not understood: " + show(i, 6), wh)
        return
    j = v
    while j.op in ("copy", "pay"):
        j = j.a[0]
    if j.op in ("mapget",) and j.a[0].op == "new":
        m, k = j.a
        if k is not e:
            rep.tri(None if opaque(k) else False, key, "the slot %s is filled with the answer to query %s" % (show(e, 4), show(k, 4)), wh)
            return
        for ins in events(f, m, ("insert",)):
            kk, vv = ins.call.args[1], strip_copy(ins.call.args[2])
            good = kk.op == "field" and kk.a[1] == tp and vv.op == "field" and vv.a[1] == vp and vv.a[0] is kk.a[0]
            rep.tri(True if good else (None if opaque_ex(kk) or opaque_ex(vv) else False), key, "the table of answers is filled with %s -> %s" % (
                show(kk, 5), show(vv, 5)), ins.where)
        return
    rep.unk(key, "slot value not understood: " + show(v, 6), wh)
