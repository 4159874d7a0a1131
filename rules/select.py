"""C33: which points an insertion links the new point to."""
from . import check
from .common import *
from .norm import *
from .norm import uncopied, whole as all_of
from .compr import skipped
from .insert import insertions, max_conn, is_double, is_base, level_range, uncast, turn_edges, in_cycle
from .search import P, names, entry_pushes, result_alts, strip_copy, is_data_of
from .explore import explorations, indexed, clear


def flag_field(w, setter):
    """the field of the index set by a public setter"""
    b = w.fn_opt(setter, impl_of="Hnsw")
    if b is None:
        return None
    f = w.flow(b)
    hit = {pl for n in f.order for pl, v in n.stores if pl.op == "field" and pl.a[0] is P(1)}
    return hit.pop() if len(hit) == 1 else None


@check("C33")
def c33(w, rep):
    mx = max_conn(w)
    ext, keep = flag_field(w, "set_extend_candidates"), flag_field(w, "set_keeping_pruned")
    efc = None
    b = w.fn_opt("get_ef_construction", impl_of="Hnsw")
    if b is not None:
        r = [uncast(t) for t in result_alts(w.flow(b))]
        efc = r[0] if len(r) == 1 and r[0].op == "field" else None
    for t, nm in ((mx, "maximum number of links"), (ext, "extension flag"), (keep, "flag keeping pruned candidates"), (efc, "construction width")):
        if t is None:
            rep.unk("role", "the %s of the index was not identified" % nm)
    if mx is None:
        return
    n = 0
    for ins in insertions(w):
        for x in ins.fwd():
            if x[1] != "store":
                continue
            v = strip_copy(x[6])
            if v.op != "new":
                rep.unk("store:" + ins.body.name, "list of links stored not understood: %s" % show(v, 5), x[0].where)
                continue
            n += 1
            Sel(w, rep, ins, x[0], v, mx, ext, keep, efc, x[5] if isinstance(x[5], Term) else None).run()
    rep.count("lists of links chosen", n, 1)


def not_base(f, level, at):
    lv = uncast(level)
    for pol, a in f.facts_at(at):
        if not pol and a.op == "eq" and FALSE in a.a and any(uncast(x) is lv for x in a.a):
            return True
        if pol and a.op == "lt" and a.a[0] is FALSE and uncast(a.a[1]) is lv:
            return True
        if not pol and a.op == "lt" and uncast(a.a[0]) is lv and a.a[1] is I(1):
            return True
    return False


DROP = ("pop", "truncate", "retain", "remove", "swap_remove", "pop_front", "pop_back", "split_off")


class Take:
    """an entry taken out of a collection of candidates: node, entry, collection, and the sequence when it is a loop"""

    def __init__(self, node, x, coll, seq=None, site=None):
        self.node, self.x, self.coll, self.seq, self.site = node, x, coll, seq, site


class Sel:
    def __init__(self, w, rep, ins, store, v, mx, ext, keep, efc, level):
        self.w, self.rep, self.ins, self.f = w, rep, ins, ins.f
        self.store, self.v, self.mx, self.ext, self.keep, self.efc = store, v, mx, ext, keep, efc
        self.L = length(v)
        f = self.f
        self.cre = node_by_id(f, v.a[1])
        self.starts = {self.cre} | {n for n in events(f, v, ("clear",))}
        self.stops = self.starts | {store}
        self.key = ins.body.name + ":"
        self.level, self.vague, self.at = level, False, None

    def entry_point(self, e):
        return agg_get(e, self.w.pwo_pt) if self.w.is_pwo(e) else T("field", e, self.w.pwo_pt)

    def sources(self, c):
        """[(push node, entry taken elsewhere that it passes on or None)] of what is pushed into c"""
        out = []
        for g in events(self.f, c, GROW):
            if mname(g) != "push":
                out.append((g, self.passed(elem(strip_copy(g.call.args[-1]), g.id))))
                continue
            for e in self.f.alts(g.call.args[-1]):
                out.append((g, self.passed(e)))
        return out

    def passed(self, e):
        pt = self.entry_point(e)
        return pt.a[0] if pt.op == "field" and pt.a[1] == self.w.pwo_pt and coll_of(pt.a[0]).op in ("new", "coll", "param") else None

    def base(self, x):
        c = coll_of(x)
        while c.op in ("sorted", "rev", "copy", "coll", "drain") and c.a:
            c = coll_of(c.a[0])
        return c

    def takes(self, c):
        """where entries are taken out of c: pops, and turns of loops over all of it"""
        f, out = self.f, []
        for n in events(f, c, ("pop",)):
            out.append(Take(n, pay(n.call.dest), c))
        return out

    def run(self):
        f, w, rep, key = self.f, self.w, self.rep, self.key
        src = self.sources(self.v)
        if not src or any(x is None for _, x in src):
            rep.unk(key + "sources", "where the links of the new point come from is not understood", self.store.where)
            return
        allx = {}
        for g, x in src:
            allx.setdefault(self.base(x), []).append((g, x))
        # a collection filled only with entries left out of another one is a store of discarded candidates
        disc = {}
        for c in allx:
            up = self.sources(c)
            if up and all(x is not None and self.base(x) in allx and self.base(x) is not c for _, x in up):
                disc[c] = {self.base(x) for _, x in up}
        cands = [c for c in allx if c not in disc]
        if len(cands) != 1 or len(disc) > 1 or cands[0].op != "new":
            rep.unk(key + "candidates", "candidates of the links not identified (%d collections, %d of discarded)" % (len(cands), len(disc)), self.store.where)
            return
        C, D = cands[0], next(iter(disc), None)
        self.C, self.D = C, D
        takes = []
        # all that is in a collection handed over at once
        grow = [g for c in (self.v, D) if c is not None for g in events(f, c, GROW) if mname(g) != "push"]
        whole = {g for g in grow if all_of(uncopied(g.call.args[-1]))}
        part = [g for g in grow if g not in whole]
        self.whole = whole
        for c in [C] + ([D] if D is not None else []):
            xs = {x for _, x in allx[c]} | ({x for _, x in self.sources(D) if x is not None} if D is not None and c is C else set())
            for x in sorted(xs, key=lambda t: t.id):
                y = x
                while y.op in ("copy",):
                    y = y.a[0]
                if y.op == "pay" and y.a[0].op == "pop" and y.a[0].a[0] is c:
                    takes.append(Take(node_by_id(f, y.a[0].a[1]), x, c))
                elif y.op == "pay" and y.a[0].op == "pop" and self.base(y.a[0].a[0]) is c:
                    takes.append(Take(node_by_id(f, y.a[0].a[1]), x, c, T("rev", y.a[0].a[0])))
                elif y.op == "elem" and any(y.a[1] in self.sites(g) for g in whole):
                    continue
                elif y.op == "elem" and any(y.a[1] in self.sites(g) for g in part):
                    rep.unk(key + "take", "candidates added in a way not understood", self.store.where)
                    return
                elif y.op == "elem":
                    eds = turn_edges(f, y.a[1])
                    sq = [it for it, s in self.loops() if s == y.a[1]]
                    if len(eds) == 1 and sq:
                        takes.append(Take(eds[0], x, c, indexed(sq[0]), y.a[1]))
                    else:
                        rep.unk(key + "take", "the loop taking candidates is not understood", self.store.where)
                        return
                else:
                    rep.unk(key + "take", "candidate taken in a way not understood: %s" % show(x, 5), self.store.where)
                    return
        # candidates taken and never linked
        for n in events(f, C, ("pop",)):
            if not any(t.node is n for t in takes) and n not in f.reach([self.store]) or not any(t.node is n for t in takes) and self.within(n):
                takes.append(Take(n, pay(n.call.dest), C))
        self.tk = takes
        if any(t.node is None for t in takes):
            rep.unk(key + "take", "the place taking candidates is not understood", self.store.where)
            return
        self.width()
        self.collected()
        self.order()
        few = self.shadowing()
        self.pruned()
        self.extension()
        self.dropped()

    def sites(self, g):
        """the sites of the entries handed over at once at g"""
        t, out = uncopied(g.call.args[-1]), {g.id}
        while t.op in ("map", "filter", "filtermap") or t.op in KEEP + FEWER:
            if t.op in ("map", "filter", "filtermap"):
                out.add(t.a[-1])
            t = t.a[0]
        return out

    def loops(self):
        out = []
        for n in self.f.order:
            if n.id in self.f.hof_loop:
                out.append(self.f.hof_loop[n.id])
            for pol, a in n.facts:
                if pol and a.op == "isok" and a.a[0].op == "next":
                    out.append((a.a[0].a[0], a.a[0].a[1]))
        return out

    def within(self, n):
        """n lies between the start of a selection and the storing of its result"""
        stop = lambda y: y in self.stops
        return n in self.f.reach([z for s in self.starts if s is not None for z in s.succ], stop=stop) and self.store in self.f.reach(n.succ, stop=lambda y: y in self.starts)

    # ---- facts
    def limit(self, t, at=None, depth=0):
        """t is the number of links allowed at the level of the list: True/False/None"""
        f, u = self.f, uncast(t)
        u = u.a[0] if u.op == "max" and I(0) in u.a and u.a[1] is I(0) else u
        at = [at] if at is not None else [self.store] + [x for x in (self.at,) if x is not None]
        lv = self.level
        if u is self.mx or is_double(u, self.mx):
            if lv is None:
                return None
            rg = level_range(uncast(lv).a[0]) if uncast(lv).op == "elem" else None
            base = any(is_base(f, lv, n) for n in at)
            above = any(not_base(f, lv, n) for n in at) or rg is not None and rg[0].op == "int" and rg[0].a[0] > 0
            if u is self.mx:
                return True if above else False if base or rg is not None and rg[0] is I(0) else None
            return True if base else False if above or rg is not None else None
        if (u.op == "phi" and u in f.phi_in or ways(f, u)) and depth < 5:
            r = [self.limit(v, p, depth + 1) for p, v in ways(f, u)]
            return False if False in r else None if None in r or not r else True
        if u.op == "bin" and all(x.op == "int" or self.limit(x, None, depth + 1) is not None or uncast(x) is self.mx or self.just_limit(x) for x in u.a[1:]):
            return False
        return None if opaque_in(f, u) else False

    def just_limit(self, t):
        return all(uncast(x) is self.mx or is_double(x, self.mx) for x in self.f.alts(t))

    def lim(self, t):
        r = self.limit(t)
        if r is None:
            self.vague = True
        return r is not False

    def full(self, y):
        """the list has as many links as allowed"""
        pol, a = y
        if self.counted(y):
            return True
        if a.op == "lt" and not pol and a.a[0] is self.L:
            return self.lim(a.a[1])
        if a.op == "lt" and pol and a.a[1] is self.L:
            return self.lim(a.a[0])
        if a.op == "eq" and pol and self.L in a.a:
            return all(self.lim(z) for z in a.a if z is not self.L)
        if a.op == "eq" and pol and I(0) in a.a:
            z = [u for u in a.a if u is not I(0)]
            return bool(z) and z[0].op == "satsub" and z[0].a[1] is self.L and self.lim(z[0].a[0])
        return False

    def counted(self, y):
        """as many turns as there were free places are over, each having added a link"""
        pol, a = y
        if pol or a.op != "isok" or a.a[0].op != "next":
            return False
        it, s = a.a[0].a
        if it.op != "agg" or it.a[0] != "Range":
            return False
        if it.a[2] is not I(0):
            return False
        e = uncast(it.a[3])
        if e.op == "satsub" and e.a[1] is self.L:
            lim = e.a[0]
        elif e.op == "bin" and e.a[0] == "Sub" and e.a[2] is self.L:
            lim = e.a[1]
        else:
            return False
        if not self.lim(lim):
            return False
        t = turn_edges(self.f, s)
        pn = set(events(self.f, self.v, ("push",)))
        heads = {p for z in t for p in z.pred}
        return bool(t) and all(not (heads & self.f.reach([z], stop=lambda y: y in pn or y in self.stops)) for z in t)

    def empty(self, c):
        def mine(t):
            return t.op == "len" and self.base(t.a[0]) is c

        def on(y):
            pol, a = y
            if a.op == "eq" and pol and I(0) in a.a and any(mine(z) for z in a.a):
                return True
            if a.op == "lt" and not pol and a.a[0] is I(0) and mine(a.a[1]):
                return True
            if a.op == "isok" and not pol and a.a[0].op in ("pop", "peek") and self.base(a.a[0].a[0]) is c:
                return True
            return a.op == "isok" and not pol and a.a[0].op == "next" and any(z is c for z in subterms(a.a[0].a[0]))
        return on

    def dist(self, x):
        """classifies a side of a comparison: 'x' the distance of entry x to the new point, 'd' its distance to a link already chosen; with the sign"""
        w = self.w
        sx = self.signs.get(self.base(x))
        pt = T("field", x, w.pwo_pt)

        def on(t):
            s, d = sign_of(t, None)
            if d.op == "call" and d.a[0] in ("f32::abs", "num::abs"):
                r = on(d.a[-1])
                return None if r is None or r[0] != "x" else ("x", s)
            if d.op == "field" and d.a[1] == w.pwo_d and d.a[0] is x and sx is not None:
                return "x", s * sx
            if d.op == "eval":
                a = [z for z in d.a[1:]]
                mine = [z for z in a if is_data_of(w, z, pt)]
                if mine:
                    o = [z for z in a if z is not mine[0]]
                    if any(z is self.ins.data or strip_copy(z) is self.ins.data for z in o):
                        return "x", s
                    for z in o:
                        b = z
                        while b.op == "field":
                            b = b.a[0]
                        if coll_of(b) is self.v:
                            return "d", s
            return None
        return on

    def shadow(self, x):
        on = self.dist(x)

        def f(y, depth=0):
            """True: x is at least as near to a chosen link as to the new point; False: the contrary comparison is the one made"""
            pol, a = y
            if a.op == "not":
                return f((not pol, a.a[0]), depth)
            if a.op in ("any",) and depth == 0 and coll_of(a.a[0]) is self.v:
                r = f((True, a.a[1]), 1)
                return None if r is None else r if pol else None
            if a.op in ("all",) and depth == 0 and coll_of(a.a[0]) is self.v:
                r = f((False, a.a[1]), 1)
                return None if r is None or pol else r
            if a.op == "lt":
                l, r = on(a.a[0]), on(a.a[1])
                if l is None or r is None or {l[0], r[0]} != {"x", "d"} or l[1] != r[1]:
                    return None
                n = l[0] if l[1] > 0 else r[0]          # side said nearer by lt
                return (n == "d") == pol
            return None
        return f

    def opened(self, flag):
        return lambda k, y: k == "fact" and y[0] and y[1] is flag

    # ---- obligations
    def width(self):
        """the search giving the candidates has the construction width"""
        f, rep, key = self.f, self.rep, self.key
        H = {self.base(x) for _, x in self.sources(self.C) if x is not None} | {self.C}
        ex = [x for x in explorations(self.w, f) if len(x.kept) == 1 and x.kept[0] in H]
        self.ex = ex
        if not ex:
            rep.unk(key + "search", "the search giving the candidates is not identified", self.store.where)
            return
        for x in ex:
            Lk = length(x.kept[0])
            ws = [(n, z) for n in f.order for pol, a in n.facts if a.op == "lt" and Lk in a.a for z in a.a if z is not Lk and z.op != "int"]
            r = [self.efc is None or self.efc in maxs(z) or self.efc in {uncast(u) for u in maxs(z)} for _, z in ws]
            if not ws or self.efc is None:
                rep.unk(key + "width", "the width of the search giving the candidates is not understood", x.pop.where)
                continue
            bad = [z for (n, z), ok in zip(ws, r) if not ok]
            rep.tri(True if not bad else (None if any(opaque_in(f, z) for z in bad) else False), key + "width",
                    "the candidates of the links are searched with %s and not with the construction width" % (show(bad[0], 5) if bad else ""), x.pop.where,
                    "searched with the construction width")

    def base_seq(self, t):
        while t.op in KEEP:
            t = t.a[0]
        return t

    def collected(self):
        """every answer of that search is a candidate"""
        f, rep, key = self.f, self.rep, self.key
        for x in self.ex:
            H = x.kept[0]
            if H is self.C:
                rep.ok(key + "collected", self.store.where, "the answers of the search are the candidates")
                continue
            ps = [(g, e) for g, e in self.sources(self.C) if e is not None and self.base(e) is H]
            ok = []
            for g, e in ps:
                nx = loop_nexts(f, g)
                if mname(g) == "push" and nx and any(y.op == "elem" and y.a[1] == nx[-1][1] for y in [e] + list(subterms(e))):
                    it, s = nx[-1]
                    why = skipped(f, s, g)
                    ok.append(False if why or not all_of(it) and it.op in FEWER else True if all_of(it) else None)
                elif mname(g) in ("extend", "append") and all_of(g.call.args[1]) and self.base_seq(g.call.args[1]) is H:
                    ok.append(True)
                else:
                    ok.append(None)
            rep.tri(True if True in ok else (None if None in ok or not ok else False), key + "collected", "some of the points found near the new point are not considered for its links",
                    ps[0][0].where if ps else self.store.where, "all the answers of the search are candidates")

    def order(self):
        f, w, rep, key = self.f, self.w, self.rep, self.key
        od = Order(w, f, names(w))
        up = ord_dir(w, "Ord", w.pwo_name, w.pwo_d)
        self.signs = {}
        for c in (self.C, self.D):
            if c is None:
                continue
            s = self.signs[c] = od.heap(c)
            what = "candidates" if c is self.C else "pruned candidates"
            for t in self.tk:
                if t.coll is not c or not self.shadow_used(t) and c is self.C:
                    continue
                if t.seq is not None:
                    o = od.of(t.seq)
                    if o is None and c is self.D and c.a[0] == "Vec" and all_of(t.seq) and not list(events(f, c, ("sort", "reverse", "insert", "swap"))):
                        o = "asc"       # kept in the order in which candidates are taken, which is checked
                    rep.tri(None if o is None else o in ("asc", "any"), key + "nearest:" + what, "%s are not taken nearest first" % what, t.node.where, "nearest first")
                elif t.seq is None and c.a[0] == "BinaryHeap" and s is not None and up in ("asc", "desc"):
                    rep.req((s < 0) == (up == "asc"), key + "nearest:" + what, "the %s are taken farthest first" % what, t.node.where, "nearest first")
                else:
                    rep.unk(key + "nearest:" + what, "order in which %s are taken not understood" % what, t.node.where)

    def pushes(self, c, x):
        return {g for g, e in self.sources(c) if e is x}

    def region(self, t):
        """nodes between the taking of a candidate and the next one"""
        return self.f.reach(t.node.succ, stop=lambda y: y is t.node or y in self.stops)

    def shadow_used(self, t):
        """the entry taken is compared to the links chosen, or is not always linked"""
        pn = self.pushes(self.v, t.x)
        return t.node in self.f.reach(t.node.succ, stop=lambda y: y in pn or y in self.stops)

    def clear_region(self, t):
        on = self.dist(t.x)
        for n in self.region(t):
            for _, a in n.facts:
                if a.op in ("any", "all"):
                    a = a.a[1]
                if a in (self.ext, self.keep):
                    continue
                if a.op == "phi" and a in self.f.phi_in and all(v is self.ext or v is self.keep or v.op == "int" or v.op in ("any", "all", "not", "phi", "lt") for _, v in self.f.phi_in[a]):
                    continue
                if not clear(self.f, a, lambda z: on(z) or self.plain(z, t.x)):
                    return False
        return True

    def plain(self, z, x):
        """a stored attribute of the candidate, or the level of the list"""
        z = uncast(z)
        if self.level is not None and z is uncast(self.level):
            return "level"
        while z.op == "field":
            z = z.a[0]
            if z is x:
                return "attribute"
        return None

    def shadowing(self):
        f, rep, key = self.f, self.rep, self.key
        for t in self.tk:
            what = "left" if t.coll is self.C else "refill"
            pn, sh = self.pushes(self.v, t.x), self.shadow(t.x)
            self.at, self.vague = t.node, False

            def settled(k, y):
                if k == "node":
                    return y in pn
                return self.full(y) or t.coll is self.C and sh(y) is True or y[1].op == "isok" and not y[0] and y[1].a[0].op == "pop" and self.base(y[1].a[0].a[0]) is t.coll
            goals = [z.node for z in self.tk if z.coll is t.coll and (z is t or z.node in self.region(t))] + [self.store]
            ok = all(f.holds(z, settled, since=t.node) for z in goals)
            rep.tri((None if self.vague else True) if ok else (False if self.clear_region(t) else None), key + what,
                    "a candidate may be left out of the links of the new point although it is not nearer to a link already chosen" if t.coll is self.C else
                    "a pruned candidate taken back may not be linked", t.node.where, "left out only when nearer to a link already chosen")
            # ends of the taking
            cyc = {z for z in f.reach(t.node.succ, stop=lambda y: y in self.stops) if t.node in f.reach(z.succ, stop=lambda y: y in self.stops)} | {t.node}
            em = self.empty(t.coll)

            def over(k, y):
                return k == "fact" and (self.full(y) or em(y) or t.coll is self.D and not y[0] and y[1] is self.keep)
            for z in f.order:
                if z in cyc or not any(p in cyc for p in z.pred) or self.store not in f.reach([z], stop=lambda y: y in self.starts):
                    continue
                ok = f.holds_at(z, over, 0, since=t.node) if len(cyc) > 1 else f.holds_at(z, over, 0)
                if not ok:
                    fs = [y for y in f.facts_at(z)]
                    few = [y for y in z.facts if self.L in subterms(y[1]) and y[1].op in ("lt", "eq")]
                    ok = False if self.clear_region(t) and all(clear(f, a, self.dist(t.x)) or a in (self.ext, self.keep) for _, a in z.facts) else None
                rep.tri(None if ok and self.vague else ok, key + "end:" + what, "the choice of the links of the new point may stop while candidates are left and fewer links than allowed are chosen", z.where,
                        "ends when no candidate is left or the list is full")
            if t.coll is self.C and self.shadow_used(t):
                self.checked(t, pn, sh)
            # few candidates: all are linked
            if t.coll is self.C and self.shadow_used(t):
                lc = length(self.C)

                def many(k, y):
                    if k != "fact":
                        return False
                    pol, a = y
                    if pol and a is self.ext:
                        return True
                    if a.op == "lt" and pol and a.a[1] is lc:
                        return self.lim(a.a[0])
                    return a.op == "lt" and not pol and a.a[0] is lc and False
                ok = f.holds(t.node, many)
                if not ok:
                    fs = [a for n in f.doms(t.node) for _, a in n.facts if lc in subterms(a)]
                    ok = None if self.ext is None or any(not clear(f, a, lambda z: None) for a in fs) else False
                rep.tri(ok, key + "few", "candidates may be left out although there are no more of them than links allowed, and no extension was asked", t.node.where,
                        "left out only when there are more candidates than links allowed or extension was asked")
        # the choice is made
        nodes = {t.node for t in self.tk if t.coll is self.C} | self.whole
        em = self.empty(self.C)
        for s in self.starts:
            if s is None or self.store not in f.reach(s.succ, stop=lambda y: y in self.starts):
                continue
            ok = f.holds(self.store, lambda k, y: k == "node" and (y in nodes or y in self.starts) or k == "fact" and (self.full(y) or em(y)), since=s)
            rep.tri(True if ok else None, key + "made", "a list of links is stored without candidates having been considered", self.store.where)

    def checked(self, t, pn, sh):
        """a candidate is linked only once compared to all the links chosen"""
        f, rep = self.f, self.rep
        v, L = self.v, self.L

        def apart(k, y):
            if k != "fact":
                return False
            pol, a = y
            if a.op == "any" and not pol and coll_of(a.a[0]) is v and sh((True, a)) is True:
                return all_of(a.a[0])
            if a.op == "all" and pol and coll_of(a.a[0]) is v and sh((False, a)) is True:
                return all_of(a.a[0])
            if a.op == "eq" and pol and I(0) in a.a and L in a.a or a.op == "lt" and not pol and a.a[0] is I(0) and a.a[1] is L:
                return True
            if a.op == "isok" and not pol and a.a[0].op == "next" and coll_of(indexed(a.a[0].a[0])) is v:
                return all_of(indexed(a.a[0].a[0]))
            return False
        for g in pn:
            ok = f.holds(g, apart, since=t.node)
            rep.tri(True if ok else (False if self.clear_region(t) else None), self.key + "checked", "a candidate is linked without having been compared to every link already chosen", g.where,
                    "compared to every link already chosen")

    def dropped(self):
        """no candidate and no link chosen is thrown away"""
        f, rep, key = self.f, self.rep, self.key
        src = self.sources(self.C)
        used = {t.node for t in self.tk}
        for x in self.ex:
            H = x.kept[0]
            ends = {g for g, e in src if e is not None and self.base(e) is H} if H is not self.C else used
            passed = {y.a[0].a[1] for _, e in src if e is not None for y in [e] + list(subterms(e)) if y.op == "pay" and y.a[0].op == "pop"}
            cre = node_by_id(f, H.a[1])
            for n in events(f, H, DROP):
                if n in used or n.id in passed or n in f.reach(x.pop.succ, stop=lambda y: y is cre) and x.pop in f.reach(n.succ, stop=lambda y: y is cre):
                    continue
                if f.reach(n.succ, stop=lambda y: y is cre) & ends:
                    rep.bad(key + "dropped", "a point found near the new point may be thrown away before the links are chosen", n.where)
        cre = node_by_id(f, self.C.a[1])
        if not any(x.kept[0] is self.C for x in self.ex):
            for n in events(f, self.C, DROP):
                if n not in used and f.reach(n.succ, stop=lambda y: y is cre) & used:
                    rep.bad(key + "dropped", "a candidate may be thrown away before the links are chosen", n.where)
        for n in events(f, self.v, DROP):
            if not self.within(n):
                continue
            m = mname(n)
            self.at = n
            if m == "truncate":
                r = self.limit(n.call.args[-1])
                rep.tri(r, key + "cut", "the links chosen are cut to %s" % show(n.call.args[-1], 5), n.where)
                continue
            over = f.holds(n, lambda k, y: k == "fact" and y[1].op == "lt" and y[0] and y[1].a[1] is self.L and self.limit(y[1].a[0]) is not False)
            rep.req(over and m == "pop", key + "cut", "links chosen may be thrown away", n.where, "only links beyond the number allowed are removed")

    def pruned(self):
        f, rep, key = self.f, self.rep, self.key
        if self.keep is None:
            return
        D = self.D
        if D is None:
            used = any(a is self.keep or a.op == "phi" and self.keep in f.alts(a) for n in f.order for _, a in n.facts if self.within(n))
            rep.tri(None if used else False, key + "pruned", "pruned candidates are never kept although the index was asked to", self.store.where)
            return
        for t in self.tk:
            if t.coll is self.C and self.shadow_used(t):
                pn = self.pushes(self.v, t.x) | self.pushes(D, t.x)

                def kept(k, y):
                    if k == "node":
                        return y in pn
                    return self.full(y) or not y[0] and y[1] is self.keep or y[1].op == "isok" and not y[0] and y[1].a[0].op == "pop" and self.base(y[1].a[0].a[0]) is t.coll
                goals = [z.node for z in self.tk if z.coll is t.coll and (z is t or z.node in self.region(t))] + [self.store]
                ok = all(f.holds(z, kept, since=t.node) for z in goals)
                rep.tri(True if ok else (False if self.clear_region(t) else None), key + "pruned", "a candidate left out is not kept aside although the index keeps pruned candidates",
                        t.node.where, "what is left out is kept aside when asked")
        # only when asked
        asked = self.opened(self.keep)
        dn = {g for g, _ in self.sources(D)}
        vn = {g for g, e in self.sources(self.v) if self.base(e) is D}
        ok = all(f.holds(g, asked) for g in vn) or all(f.holds(g, asked) for g in dn)
        rep.tri(True if ok else (False if not self.murky(vn | dn) else None), key + "pruned-asked", "candidates left out are linked although the index was not asked to keep them",
                next(iter(vn)).where, "only when asked")
        # they fill the free places
        em, nodes = self.empty(D), {t.node for t in self.tk if t.coll is D}
        for g in dn:
            ok = f.holds(self.store, lambda k, y: k == "node" and y in nodes or k == "fact" and (self.full(y) or em(y) or not y[0] and y[1] is self.keep), since=g)
            rep.tri(True if ok else (None if self.murky({self.store}) and False else False), key + "refill", "free places may be left although candidates were kept aside", self.store.where,
                    "candidates kept aside fill the free places")

    def murky(self, ns):
        f = self.f
        return any(a.op == "phi" and not resolvable(f, a) or a.op == "call" for n in ns for _, a in f.facts_at(n) if self.within(n))

    def extension(self):
        f, rep, key, w = self.f, self.rep, self.key, self.w
        if self.ext is None:
            return
        inside_ex = {y for x in explorations(w, f) for h in x.kept for y in events(f, h, GROW)}
        asked = self.opened(self.ext)
        for g, e in self.sources(self.C):
            if e is not None or g in inside_ex or self.C in [x.kept[0] for x in self.ex]:
                continue
            ok = f.holds(g, asked)
            v = True if ok else None
            if not ok:
                fs = [y for y in f.facts_at(g) if y[1] is self.ext or y[1].op == "phi"]
                v = None if any(y[1].op == "phi" and not resolvable(f, y[1]) for y in fs) else False
            rep.tri(v, key + "extend", "the candidates are extended to the links of candidates although the index was not asked to", g.where, "only when asked")
