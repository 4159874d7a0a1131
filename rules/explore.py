"""C32: how far a search explores the graph."""
from . import check
from .common import *
from .norm import *
from .norm import whole as all_of
from .insert import turn_edges, insertions, uncast
from .search import first_met, P, names, search_roots, entry_pushes, dist_verdict, is_entry, is_data_of, SETS


def indexed(it):
    """the list a range goes over by its indices"""
    if it.op == "agg" and it.a[0] == "Range" and it.a[2] is I(0) and it.a[3].op == "len":
        return it.a[3].a[0]
    return it


class Expl:
    """one best-first exploration: the heap of candidates popped, the links of the popped point scanned, the heap of answers kept"""

    def __init__(self, pop, cand, site, seq, kept):
        self.pop, self.cand, self.site, self.seq, self.kept = pop, cand, site, seq, kept


def link_loops(w, f, x):
    """[(site, sequence)] of the loops over the links of the point of entry x"""
    out = {}
    pt = T("field", x, w.pwo_pt)
    def on(it):
        return any(y.op == "guard" and y.a[0].op == "field" and y.a[0].a[1] == w.pf["nb"] and y.a[0].a[0] is pt for y in [it] + list(subterms(it)))
    for n in f.order:
        if n.id in f.hof_loop:
            it, s = f.hof_loop[n.id]
            it = indexed(it)
            if on(it):
                out[s] = it
        for pol, a in n.facts:
            if pol and a.op == "isok" and a.a[0].op == "next" and on(indexed(a.a[0].a[0])):
                out[a.a[0].a[1]] = indexed(a.a[0].a[0])
    return sorted(out.items())


def explorations(w, f):
    out = []
    for n in f.order:
        if n.call is None or mname(n) not in ("pop", "pop_front", "pop_back", "remove", "swap_remove") or not n.call.args or n.call.args[0].op != "new":
            continue
        c = n.call.args[0]
        x = pay(n.call.dest) if mname(n) in ("pop", "pop_front", "pop_back") else n.call.dest
        mine = []
        for site, it in link_loops(w, f, x):
            kept = []
            for h in {y for m in f.order if m.call is not None and mname(m) == "push" for y in [m.call.args[0]] if y.op == "new" and y is not c}:
                ps = [p for p in entry_pushes(w, f, h, direct=True) if any(s == site for _, s in loop_nexts(f, p[0]))]
                if ps:
                    kept.append(h)
            mine.append(Expl(n, c, site, it, kept))
        out += [y for y in mine if y.kept] or mine
    return out


@check("C32")
def c32(w, rep):
    total = 0
    for b, q, k, e, fl in search_roots(w):
        f = w.flow(b)
        ex = explorations(w, f)
        total += len(ex)
        if not ex:
            rep.unk("explore:" + b.name, "no exploration of the links found in %s" % b.spath, "%s:%d" % (b.file, b.line))
        for x in ex:
            one(w, rep, b.name, f, x, P(q), P(e), P(fl) if fl else None)
            descent(w, rep, b.name, f, x, P(q))
            if len(ex) == 1:
                started(w, rep, b.name, f, x, P(k))
    for ins in insertions(w):
        for x in explorations(w, ins.f):
            total += 1
            one(w, rep, "insertion", ins.f, x, None, None, None)
    rep.count("explorations of the graph analysed", total, 2)


def one(w, rep, nm, f, x, q, ef, fil):
    c, C, sn = x.pop, x.cand, node_by_id(f, x.site)
    cre = node_by_id(f, C.a[1])
    wh = c.where
    key = nm + ":"
    if len(x.kept) != 1:
        rep.unk(key + "kept", "the answers kept were not identified (%d collections)" % len(x.kept), wh)
        return
    H = x.kept[0]
    if C.a[0] != "BinaryHeap" or H.a[0] != "BinaryHeap":
        rep.unk(key + "heaps", "candidates kept in %s, answers in %s" % (C.a[0], H.a[0]), wh)
        return
    od = Order(w, f, names(w))
    cs, hs = od.heap(C), od.heap(H)
    a, b = ord_dir(w, "Ord", w.pwo_name, w.pwo_d), ord_dir(w, "PartialOrd", w.pwo_name, w.pwo_d)
    up = None if a not in ("asc", "desc") else a == "asc"
    wrong = False
    for heap, what in ((C, "candidate"), (H, "answer")):
        for m, ag, s, d in entry_pushes(w, f, heap):
            if s is None:
                continue
            v, why = dist_verdict(w, f, agg_get(ag, w.pwo_d) if s > 0 else T_neg(agg_get(ag, w.pwo_d)), agg_get(ag, w.pwo_pt), q)
            wrong |= v is False
            rep.tri(v, key + "rank", "%s is not ranked by its distance to the query: %s" % ("a candidate" if heap is C else "an answer", why), m.where,
                    "ranked by the distance of the %s" % what)
        sg = {s for m, ag, s, d in entry_pushes(w, f, heap, direct=True)}
        if len(sg) > 1:
            wrong = True
            rep.bad(key + "signs", "the %ss of a search are kept with distances of both signs" % what, wh)
    if wrong:
        return
    if cs is None or hs is None or up is None:
        rep.unk(key + "sign", "the distances kept in the heaps are not understood", wh)
        return
    rep.req((cs < 0) == up, key + "nearest-first", "a search expands the farthest candidate first instead of the nearest", wh, "the nearest candidate is popped first")
    rep.req((hs > 0) == up, key + "farthest-kept", "the answers kept are in a heap whose top is the nearest: the nearest is dropped when there are too many", wh,
            "the top of the heap of answers is the farthest")
    X = pay(c.call.dest)
    L = length(H)
    e = elem(x.seq, x.site)
    layers = {u for y in [x.seq] + list(subterms(x.seq)) if y.op == "index" for u in y.a[1:]}
    layers |= {u.a[-1] for u in layers if u.op == "cast"}

    def dist(t):
        """('c'|'f'|'e', sign of the true distance) of one side of a comparison"""
        s, d = sign_of(t, None)
        if d.op == "call" and d.a[0] in ("f32::abs", "num::abs") and (dist(d.a[-1]) or "  ")[0] in ("c", "f", "e"):
            return dist(d.a[-1])[0], s          # distances are not negative
        if d.op == "field" and d.a[1] == w.pwo_d:
            o = d.a[0]
            if o is X:
                return "c", s * cs
            if o.op == "pay" and o.a[0].op == "peek" and o.a[0].a[0] is H:
                return "f", s * hs
            if o.op == "elem" and o.a[0] is H and hs > 0 and callname(f, o.a[1]) == "max":
                return "f", s
        if d.op == "eval":
            for pt, k in ((T("field", e, w.pwo_pt), "e"), (T("field", X, w.pwo_pt), "c")):
                if any(is_data_of(w, v, pt) for v in d.a[1:]):
                    return k, s
        r = t
        while r.op in ("field", "cast"):
            r = r.a[0] if r.op == "field" else r.a[-1]
        if r is not t and r in (X, e) and t.op in ("field", "cast") or t in layers:
            return "p", s                       # the place of a point, the layer explored
        return None

    def cmp(y):
        """(nearer, farther, strict) of a fact comparing two distances"""
        pol, at = y
        if at.op != "lt":
            return None
        l, r = dist(at.a[0]), dist(at.a[1])
        if l is None or r is None or l[1] != r[1]:
            return None
        n, fa = (l[0], r[0]) if l[1] > 0 else (r[0], l[0])
        return (n, fa, True) if pol else (fa, n, False)

    def width(t):
        return ef is None or ef in maxs(t)

    def full(y):
        pol, at = y
        if at.op == "lt" and not pol and at.a[0] is L:
            return width(at.a[1])
        if at.op == "lt" and pol and at.a[1] is L:
            return width(at.a[0])
        if at.op == "eq" and not pol and L in at.a and I(0) in at.a:
            return ef is None
        if at.op == "eq" and pol and L in at.a:
            return all(width(z) for z in at.a if z is not L)
        return False

    def empty(y):
        pol, at = y
        if at.op == "eq" and pol and I(0) in at.a and length(C) in at.a:
            return True
        if at.op == "lt" and not pol and at.a[0] is I(0) and at.a[1] is length(C):
            return True
        if at.op == "isok" and not pol and at.a[0].op in ("pop", "peek") and at.a[0].a[0] in (C, H):
            return True
        return at.op == "eq" and pol and I(0) in at.a and L in at.a

    def nofilter(y):
        return fil is not None and not y[0] and y[1].op == "isok" and y[1].a[0] is fil

    # ends of the exploration
    live = f.reach([f.exit], back=True)
    around = turning(f, c, C)
    ends = [z for z in f.order if z in live and z not in around and any(p in around for p in z.pred)]
    for z in ends:
        def stop(kind, y):
            return kind == "fact" and (empty(y) or cmp(y) == ("f", "c", True))

        def enough(kind, y):
            return kind == "fact" and (empty(y) or full(y) or nofilter(y))
        at = lambda pr: f.holds_at(z, pr, 0, since=c)
        bad = []
        if not at(stop):
            bad.append("without the nearest candidate left being farther than the farthest answer kept")
        if fil is not None and not at(enough):
            bad.append("while it keeps fewer accepted answers than the width asked")
        v = True
        if bad:
            v = False if readable(f, z, c, dist, L, C) else None
        rep.tri(v, key + "end", "a search may stop exploring %s: candidates nearer than the answers are left out" % " and ".join(bad), z.where,
                "stops when no candidate is left or the nearest is too far")
    def rejected(kind, y):
        return kind == "fact" and y[1].op == "accept" and not y[0]

    def single(kind, y):
        return kind == "fact" and (y[0] and y[1].op == "eq" and L in y[1].a and I(1) in y[1].a or y[0] and y[1].op == "lt" and y[1].a[0] is L and y[1].a[1] is I(2))
    # what is taken out of the answers
    for n in events(f, H):
        m = mname(n)
        if m not in SHRINK:
            continue
        if m == "pop":
            def over(kind, y):
                return kind == "fact" and y[0] and y[1].op == "lt" and y[1].a[1] is L and width(y[1].a[0])
            fs = [y for y in f.facts_at(n) if L in y[1].a]
            if n not in around:
                continue        # the answers are being read
            v = f.holds(n, over) or f.holds(n, rejected) and f.holds(n, single)
            if not v:
                v = False if not any(opaque_in(f, z) for _, t in fs for z in t.a if isinstance(z, Term) and z is not L) else None
            rep.tri(v, key + "evict", "a search drops an answer while it keeps no more than the width asked (tests made: %s)" % "; ".join(
                ("" if p else "not ") + show(t, 6) for p, t in fs), n.where, "an answer is dropped only when there are more than the width asked")
        elif m == "clear":
            ok = f.holds(n, rejected) and f.holds(n, single)
            fs = f.facts_at(n)
            v = True if ok else (None if any(opaque_in(f, t) for _, t in fs if t.op in ("lt", "eq") and L in subterms(t)) else False)
            rep.tri(v, key + "clear", "a search throws away all the answers it keeps although they may be accepted by its filter", n.where,
                    "only a single answer rejected by the filter is thrown away")
        elif n in around:
            rep.unk(key + m, "answers removed by %s" % m, n.where)
    # the links of the candidate
    cut = [y for y in [x.seq] + list(subterms(x.seq)) if y.op in ("take", "skip", "slice", "stepby", "takewhile", "chunksx")]
    if cut:
        rep.bad(key + "links", "a search does not look at all the links of the point it expands: %s" % show(cut[0], 6), sn.where)
    else:
        rep.tri(True if all_of(x.seq) else None, key + "links", "links expanded not understood", sn.where, "all links of the point expanded")

    def scanned(kind, y):
        if kind == "node":
            return y is sn or y is cre
        pol, at = y
        return at.op in ("eq", "lt") and any(t.op == "len" and t.a[0] is x.seq for t in at.a) and I(0) in at.a
    if not f.holds(c, scanned, since=c):
        v = False if readable(f, c, c, dist, L, C, {sn}) else None
        rep.tri(v, key + "expand", "a search may take the nearest candidate without looking at its links", wh)
    else:
        rep.ok(key + "expand", wh, "the links of each candidate taken are looked at")
    for ed in turn_edges(f, x.site):
        if c in f.reach([ed], stop=lambda y: y is sn or y is cre):
            rep.bad(key + "leave", "a search may leave the links of a point before the last one", ed.where)
            break
    # each point met
    pt = T("field", e, w.pwo_pt)
    oid = T("field", pt, w.pf["id"])
    for m in f.order:
        if m.call is not None and m.call.args and m.call.args[0].op == "new" and m.call.args[0].a[0] in SETS and mname(m) in (
                "insert", "contains", "contains_key", "get") and len(m.call.args) > 1 and m.call.args[1] is oid and m in around:
            rep.bad(key + "met-key", "a search recognises the points already met by the caller's id, which two stored points may share: the second is passed over", m.where)
            break
    new = first_met(w, pt)
    n1 = 0
    for ed in f.order:
        if not any(new("fact", y) for y in ed.facts):
            continue
        n1 += 1
        for heap, what, fails in ((C, "expanding it later", False), (H, "keeping it as an answer", True)):
            pn = {m for m, ag, s, d in entry_pushes(w, f, heap, direct=True) if agg_get(ag, w.pwo_pt) is pt}

            def taken(kind, y):
                return kind == "node" and (y in pn or y is cre) or fails and kind == "fact" and y[1].op == "accept" and not y[0]

            def far(kind, y):
                if taken(kind, y):
                    return True
                g = cmp(y) if kind == "fact" else None
                return g is not None and g[:2] == ("f", "e")

            def nomore(kind, y):
                return taken(kind, y) or kind == "fact" and full(y)
            # leaving the whole exploration is judged above
            ok1, ok2 = f.holds(sn, far, since=ed), f.holds(sn, nomore, since=ed)
            v = True
            if not (ok1 and ok2):
                thr = [t for z in f.reach(ed.succ, stop=lambda y: y is sn or y is cre) for _, t in z.facts if t.op in ("lt", "eq", "phi", "not")]
                vague = any(not clear(f, t, dist) for t in thr) or not pn and any(
                        mname(m) in GROW and m.call.args[0] is heap and m in f.reach(ed.succ, stop=lambda y: y is sn or y is cre) for m in events(f, heap))
                v = None if vague else False
            rep.tri(v, key + ("met:candidate" if heap is C else "met:answer"), "a search may pass over a point met for the first time without %s, although %s" % (
                what, "fewer answers are kept than the width asked" if ok1 else "it is nearer than the farthest answer kept"), ed.where,
                "a point met is passed over only when it is too far and enough answers are kept")
    if not n1:
        rep.unk(key + "met", "the test of a first visit was not found", wh)
    # no link is passed over before having been looked up among the points met
    if n1 and all_of(x.seq):
        def looked(kind, y):
            return kind == "fact" and (new("fact", y) or new("fact", (not y[0], y[1])))
        for ed in turn_edges(f, x.site):
            g1 = f.holds(sn, lambda k, y: looked(k, y) or k == "node" and y is cre or k == "fact" and (cmp(y) or "  ")[:2] == ("f", "e"), since=ed)
            g2 = f.holds(sn, lambda k, y: looked(k, y) or k == "node" and y is cre or k == "fact" and full(y), since=ed)
            v = True
            if not (g1 and g2):
                thr = [t for z in f.reach([ed], stop=lambda y: y is sn or y is cre or any(looked("fact", t) for t in y.facts)) for _, t in z.facts]
                v = False if all(clear(f, t, dist) for t in thr) else None
            rep.tri(v, key + "links-met", "a search may pass over a link of the point it expands without having met its point before", ed.where,
                    "only the links to points met before are passed over")
    # the start
    for heap, what in ((C, "candidates"), (H, "answers")):
        st = {p[0] for p in entry_pushes(w, f, heap, direct=True) if p[0] not in around}
        if not st:
            rep.tri(None if any(mname(m) in GROW and m not in around for m in events(f, heap)) else False, key + "start:" + what,
                    "a search does not put the point it starts from among its %s" % what, wh)
            continue
        made_at = node_by_id(f, heap.a[1]) if heap.op == "new" else None
        put = f.holds(c, lambda k, y: k == "node" and (y in st or y is c), since=made_at or cre)
        if not put and heap is C:
            rep.tri(False if readable(f, c, cre, dist, L, C) else None, key + "start:" + what,
                    "a search may not put the point it starts from among its %s" % what, wh)
        elif not put:
            pk = [m for m in around if m.call is not None and mname(m) in ("unwrap", "expect") and m.call.args and m.call.args[0].op == "peek" and m.call.args[0].a[0] is H]

            def held(kind, y):
                if kind != "fact":
                    return False
                pol, a = y
                return a.op == "isok" and pol and a.a[0].op == "peek" and a.a[0].a[0] is H or a.op == "lt" and pol and a.a[1] is L or \
                    a.op == "eq" and not pol and L in a.a and I(0) in a.a
            naked = [m for m in pk if not f.holds(m, held, since=c)]
            rep.tri(False if naked else None, key + "start:" + what, "a search may start without any answer and then reads the farthest one", naked[0].where if naked else wh)
        else:
            rep.ok(key + "start:" + what, wh, "the starting point is among the %s" % what)


def started(w, rep, nm, f, x, k):
    """a search which does not explore is one in an index, or a layer, without points (or which asks for no point)"""
    c = x.pop
    C = x.cand

    def allowed(kind, y):
        if kind != "fact":
            return False
        pol, a = y
        if a.op == "isok":
            return not pol and (is_entry(w, a.a[0]) or a.a[0].op in ("get", "first", "last", "peek", "next", "pop") and
                                any(z.op == "guard" and w.lock_class(z.a[0]) == w.pif["layers"] for z in subterms(a.a[0])))
        if a.op == "eq" and pol and I(0) in a.a:
            return any(z.op in ("len", "prot") or z is k for z in a.a)
        if a.op == "lt":
            l, r = a.a
            if pol and r is I(0) and l.op == "field":
                return True
            if pol and r is I(1) or not pol and l is I(0):
                z = l if pol else r
                return z.op in ("len", "prot") or z is k
        return False

    def known(a):
        for z in (a.a if a.op in ("eq", "lt") else [a]):
            if z.op == "len":                     # a number of points, or of things: which list it is does not matter
                z = z.a[0]
                while z.op == "index":
                    z = z.a[0]
            if any(u.op in ("phi", "call", "other", "undef") for u in [z] + list(subterms(z))):
                return False
        return True
    avoid = f.reach([f.entry], stop=lambda y: y is c)
    back = f.reach([c], back=True)
    n = 0
    for e in f.order:
        if e not in avoid or e in back or not e.facts or not any(p in back for p in e.pred) or f.exit not in f.reach([e], stop=lambda y: y is c):
            continue
        n += 1
        if f.holds_at(e, allowed, 0):
            continue
        v = False if all(known(a) for _, a in e.facts) else None
        rep.tri(v, nm + ":start:given-up", "a search gives up before exploring though there are points to explore (test: %s)" % "; ".join(
            ("" if pl else "not ") + show(a, 6) for pl, a in e.facts), e.where)
    rep.ok(nm + ":start:given-up", c.where, "%d ways of not exploring, all in the absence of points" % n)


def turning(f, c, C):
    """the nodes of the loop taking candidates"""
    cre = node_by_id(f, C.a[1])
    fwd = f.reach(c.succ, stop=lambda y: y is cre)
    bwd = f.reach(c.pred, stop=lambda y: y is cre, back=True)
    return (fwd & bwd) - {cre} | {c}


def callname(f, site):
    n = node_by_id(f, site)
    return mname(n) if n is not None and n.call is not None else None


def T_neg(t):
    return t.a[0] if t.op == "neg" else T("neg", t)


def readable(f, z, since, dist, L, C, off=()):
    """the tests on the ways from `since` to z which do not meet the nodes of `off` are all understood"""
    cre = node_by_id(f, C.a[1])
    seen = f.reach(since.succ, stop=lambda y: y is since or y is cre or y in off)
    back = f.reach(z.pred if z is since else [z], stop=lambda y: y is since or y is cre or y in off, back=True)
    return all(clear(f, a, dist) for n in (seen & back) - set(off) for _, a in n.facts)


def counter(f, t):
    """a number carried around a loop which is only increased, or only decreased, by constant steps"""
    if t.op != "phi" or t not in f.phi_in:
        return False
    seen, st, signs = set(), [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            if x not in f.phi_in:
                return False
            st.extend(v for _, v in f.phi_in[x])
        elif any(y in seen and y.op == "phi" for y in subterms(x)):
            if x.op == "bin" and str(x.a[0]) in ("Add", "Sub") and x.a[-1].op == "int" and x.a[-2].op == "phi":
                signs.add((str(x.a[0]) == "Add") == (x.a[-1].a[0] >= 0))
                st.append(x.a[-2])
            elif x.op == "satsub" and x.a[1].op == "int":
                signs.add(False)
                st.append(x.a[0])
            else:
                return False
        elif opaque(x):
            return False
    return len(signs) == 1


def clear(f, a, dist, depth=0):
    """the test (or the side of a comparison) is understood"""
    if depth > 8:
        return False
    if a.op == "phi":
        return (dist(a) or "  ")[0] == "p" or counter(f, a) or a in f.phi_in and not any(y is a for _, v in f.phi_in[a] for y in [v] + list(subterms(v))) and all(clear(f, v, dist, depth + 1) for _, v in f.phi_in[a])
    if a.op == "isok":
        return a.a[0].op != "call"
    if a.op == "field" and a.a[0].op == "elem" and a.a[0].a[0].op == "new":
        return callname(f, a.a[0].a[1]) in ("min", "last")
    if a.op in ("lt", "eq", "not"):
        return all(clear(f, y, dist, depth + 1) for y in a.a if isinstance(y, Term))
    if dist(a) is not None:
        return True
    if a.op in ("bin", "satsub", "min", "max", "cast", "neg") or arith(a):
        return all(clear(f, y, dist, depth + 1) for y in a.a if isinstance(y, Term))
    if a.op in ("contains", "accept", "len", "is"):
        return True
    return not opaque_in(f, a)


# ------------------------------------------------------------------ the descent
def descent(w, rep, nm, f, x, q):
    st = [p for p in entry_pushes(w, f, x.cand, direct=True) if p[0] not in turning(f, x.pop, x.cand)]
    for m, ag, s, d in st:
        pt = agg_get(ag, w.pwo_pt)
        for p, v0 in origins(w, f, pt):
            if v0.op == "pay" and is_entry(w, v0.a[0]):
                rep.ok(nm + ":from-entry", m.where, "from the entry point")
                continue
            if v0.op != "field" or p is None:
                rep.unk(nm + ":start-point", "starting point not understood: %s" % show(v0, 6), m.where)
                continue

            def nearer(kind, y):
                if kind != "fact" or y[1].op != "lt":
                    return False
                pol, a = y
                l, r = a.a if pol else a.a[::-1]
                if not (l.op == "eval" and any(is_data_of(w, u, v0) for u in l.a[1:]) and any(u is q for u in l.a[1:])):
                    return False
                return not [u for u in f.alts(r) if u.op in ("float", "int") or arith(u) or u.op == "const"]

            def unbounded(kind, y):
                if kind != "fact" or y[1].op != "lt":
                    return False
                pol, a = y
                l, r = a.a if pol else a.a[::-1]
                return l.op == "eval" and any(is_data_of(w, u, v0) for u in l.a[1:]) and bool([u for u in f.alts(r) if u.op in ("float", "int", "const") or arith(u)])

            def farther(kind, y):
                if kind != "fact" or y[1].op != "lt":
                    return False
                pol, a = y
                l, r = a.a if pol else a.a[::-1]
                return r.op == "eval" and any(is_data_of(w, u, v0) for u in r.a[1:])

            def listed(kind, y):
                return kind == "fact" and y[1].op == "lt" and any(u is T("field", v0.a[0], w.pwo_d) for u in y[1].a) and v0.a[1] == w.pwo_pt
            if f.holds_at(p, nearer, 0):
                rep.ok(nm + ":descent", p.where, "moves to a nearer point")
            elif f.holds_at(p, unbounded, 0):
                rep.bad(nm + ":descent", "the descent of a search moves to a point which was not found nearer than the point it stands on", p.where)
            elif f.holds_at(p, farther, 0):
                rep.bad(nm + ":descent", "the descent of a search moves to points farther from the query than the point it stands on", p.where)
            elif f.holds_at(p, listed, 0):
                rep.bad(nm + ":descent", "the descent of a search chooses between links by the distances they are stored with, not by the distance to the query", p.where)
            else:
                cmpd = [a for z in [p] + f.doms(p) for _, a in z.facts if a.op in ("lt", "le")]
                rep.unk(nm + ":descent", "the reason of moving to %s is not understood" % show(v0, 6), p.where)


def origins(w, f, t, p=None, depth=0):
    """[(node, point)] the point t may be, through options and copies, with the node where it is chosen"""
    if depth > 10:
        return [(p, t)]
    if t.op == "copy":
        return origins(w, f, t.a[0], p, depth + 1)
    if t.op == "agg" and "Option::Some" in str(t.a[0]):
        return origins(w, f, t.a[-1], p, depth + 1)
    if t.op == "agg" and "Option::None" in str(t.a[0]):
        return []
    up, b = [], t
    while b.op in ("pay", "field", "copy") and b not in f.phi_in:
        up.append(b)
        b = b.a[0]
    if b.op == "phi" and b in f.phi_in:
        out = []
        for q, v in f.alts_at(b):
            if v is b or v.op == "phi":
                return [(p, t)]
            none = False
            for u in up[::-1]:
                none |= v.op == "agg" and "Option::None" in str(v.a[0])
                v = pay(v) if u.op == "pay" else agg_get(v, u.a[1]) if u.op == "field" else v
            if not none:
                out += origins(w, f, v, q if q is not None else p, depth + 1)
        return list(dict.fromkeys(out))
    return [(p, t)]
