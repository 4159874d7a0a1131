"""C07-C13: what an insertion stores, links and publishes."""
from . import check
from .common import *
from .norm import *
from .search import P, names, dist_verdict, is_data_of, result_alts, result_heaps, must_pass, is_entry, strip_copy, entry_pushes


def uncast(t):
    while t.op == "cast":
        t = t.a[-1]
    return t


def same_num(a, b):
    return uncast(a) is uncast(b)


class Ins:
    """one function performing an insertion, flattened"""

    def __init__(self, w, body, data, oid, stop=()):
        self.w, self.body, self.data, self.oid = w, body, data, oid
        self.f = f = w.flow(body, stop=stop, key="ins" if stop else None)
        self.wh = "%s:%d" % (body.file, body.line)
        # pushes of a point into a layer
        self.layer_push = []
        for n in f.order:
            if n.call is not None and n.call.args and mname(n) in GROW:
                i = self.layer_index(n.call.args[0])
                if i is not None:
                    self.layer_push.append((n, i, n.call.args[-1]))
        self.new = None
        vals = {v for _, _, p in self.layer_push for v in f.alts(p)}
        self.vals = vals
        if len(vals) == 1:
            self.new = next(iter(vals))
        self.level = None
        if self.new is not None and self.new.op == "agg" and self.new.a[0] == "Point":
            pid = agg_get(self.new, w.pf["pid"])
            if pid is not None and pid.op == "agg":
                self.level, self.rank = pid.a[2], pid.a[3]
        self.writes = list(self.link_writes())

    def layer_index(self, t):
        """index of the layer when t is a layer's list of points under the write guard"""
        w = self.w
        if t.op == "pay" and t.a[0].op == "get":
            t = t.a[0]
        if t.op in ("index", "get") and self.layers_guard(t.a[0]):
            return t.a[1]
        return None

    def layers_guard(self, t):
        return t.op == "prot" and t.a[0].op == "guard" and self.w.lock_class(t.a[0].a[0]) == self.w.pif["layers"]

    def is_new(self, t):
        """t is the new point"""
        return t is self.new

    def nb_list(self, t):
        """(owner point, lock, guard, index) when t is a list of links of a point taken through a guard"""
        if t.op == "pay" and t.a[0].op == "get":
            t = t.a[0]
        if t.op not in ("index", "get"):
            return None
        p = t.a[0]
        if p.op != "prot" or p.a[0].op != "guard":
            return None
        lock = p.a[0].a[0]
        if lock.op == "field" and lock.a[1] == self.w.pf["nb"]:
            return lock.a[0], lock, p.a[0], t.a[1]
        if self.new is not None and self.new.op == "agg" and lock is agg_get(self.new, self.w.pf["nb"]):
            return self.new, lock, p.a[0], t.a[1]
        return None

    def link_writes(self):
        """(node, kind, list term, owner, guard, index, value) of what changes a list of links"""
        f = self.f
        for n in f.order:
            if n.call is not None and n.call.args:
                m = mname(n)
                if m in GROW or m in SHRINK or m in SORTS or m in ("reverse", "swap"):
                    r = self.nb_list(n.call.args[0])
                    if r:
                        yield n, m, n.call.args[0], r[0], r[2], r[3], n.call.args[-1]
            for pl, v in n.stores:
                r = self.nb_list(pl)
                if r:
                    yield n, "store", pl, r[0], r[2], r[3], v

    def entry_stores(self):
        for n in self.f.order:
            for pl, v in n.stores:
                if is_entry(self.w, pl):
                    yield n, pl, v
            if n.call is not None and n.call.args and is_entry(self.w, n.call.args[0]) and \
                    mname(n) in ("replace", "insert", "get_or_insert", "get_or_insert_with", "take"):
                v = n.call.args[1] if len(n.call.args) > 1 else T("agg", "Option::None", ())
                if v.op != "agg" or not v.a[0].startswith("Option"):
                    v = T("agg", "Option::Some", ("0",), v)
                yield n, n.call.args[0], v

    def fwd(self):
        """own lists filled at the point's levels: whole-list stores and pushes into lists of the new point"""
        return [x for x in self.writes if self.is_new(x[3]) and (x[1] == "store" or x[1] in GROW)]

    def rev(self):
        return [x for x in self.writes if not self.is_new(x[3]) and (x[1] == "store" or x[1] in GROW)]


def roots(w):
    """insertion functions: [(body, data term, id term)]; the first is insert_slice"""
    b = w.fn("insert_slice", impl_of="Hnsw")
    out = [(b, T("field", P(2), "0"), T("field", P(2), "1"))]
    b2 = w.fn("insert", impl_of="Hnsw")
    out.append((b2, T("field", P(2), "0"), T("field", P(2), "1")))
    b3 = w.fn_opt("insert_data", impl_of="Hnsw", trait="AnnT")
    if b3 is not None:
        out.append((b3, P(2), P(3)))
    return out


def insertions(w):
    """[Ins] of the functions doing the work; each other root must call one of them with its own arguments"""
    c = getattr(w, "_ins", None)
    if c is None:
        rs = roots(w)
        c = [Ins(w, *rs[0])]
        for b, d, i in rs[1:]:
            f = w.flow(b, stop={rs[0][0].id}, key="ins")
            if not any(n.call is not None and n.call.fn and n.call.name.endswith("::insert_slice") for n in f.order):
                c.append(Ins(w, b, d, i))
        w._ins = c
    return c


def exact_copy(f, x, data):
    """x holds exactly the elements of data: True/False/None"""
    if x is data:
        return True
    o = x.op
    if o in ("copy", "copied", "coll", "ptr"):
        r = exact_copy(f, x.a[0], data)
        if r and o == "coll" and any(mname(n) in GROW or mname(n) in SHRINK or mname(n) in SORTS for n in events(f, x)):
            return False
        return r
    if o in ("rev", "filter", "take", "skip", "slice", "sorted", "takewhile"):
        r = exact_copy(f, x.a[0], data)
        return False if r else r
    if o == "map":
        r = exact_copy(f, x.a[0], data)
        if r and strip_copy(x.a[1]) is elem(x.a[0], x.a[2]):
            return True
        return None if r is None or opaque(x.a[1]) else False
    if o == "new":
        g = list(events(f, x))
        if len(g) == 1 and mname(g[0]) in ("extend", "extend_from_slice"):
            return exact_copy(f, g[0].call.args[1], data)
        return None
    return None if opaque(x) else False


def all_paths(f, pred):
    """every way from the entry to a return passes a node satisfying pred"""
    stop = f.reach([f.order[0]], stop=pred)
    ends = [n for n in f.order if n.kind == "return" and n.ctx.parent is None]
    if not any(n in stop and not pred(n) for n in ends):
        return True

    def passed(kind, x):
        return kind == "node" and pred(x)
    return all(f.holds_at(n, passed) for n in ends)


def is_point_agg(w, t):
    return t.op == "agg" and t.a[0] == "Point"


# ------------------------------------------------------------------ C07
@check("C07")
def c07(w, rep):
    rs = roots(w)
    for ins in insertions(w):
        c07_one(w, rep, ins)
    rep.count("functions performing an insertion", len(insertions(w)), 1)
    adapters(w, rep, "C07")
    others_keep_layers(w, rep)


def pd_vec(w, d):
    """the vector inside a PointData value built in place"""
    if d.op == "agg" and len(d.a) == 3:
        return d.a[2]
    return d


def c07_one(w, rep, ins):
    f, b = ins.f, ins.body
    key = b.name
    if not ins.layer_push:
        rep.bad("stored:" + key, "%s stores no point in the layers" % b.spath, ins.wh)
        return
    nodes = {n for n, _, _ in ins.layer_push}
    rep.req(all_paths(f, lambda x: x in nodes), "stored:" + key, "%s may return without storing the point in a layer" % b.spath, ins.wh)
    for n, i, v in ins.layer_push:
        twice = f.reach(n.succ) & nodes
        rep.req(not twice, "once:" + key, "%s may store the point more than once" % b.spath, n.where)
        rep.tri(True if mname(n) == "push" else (None if mname(n) in ("extend", "append") else False), "last:" + key,
                "a point is put in its layer by `%s`, which may move points stored earlier" % mname(n), n.where)
        for p in f.alts(v):
            if not is_point_agg(w, p):
                rep.unk("point:" + key, "stored value not understood: " + show(p, 5), n.where)
                continue
            vec = pd_vec(w, agg_get(p, w.pf["data"]))
            rep.tri(exact_copy(f, vec, ins.data), "data:" + key, "the vector stored is %s and not a copy of the caller's" % show(vec, 6), n.where)
            oid = agg_get(p, w.pf["id"])
            rep.tri(True if oid is ins.oid else (None if opaque(oid) else False), "id:" + key, "the id stored is %s, not the caller's" % show(oid, 5), n.where)
            pid = agg_get(p, w.pf["pid"])
            if pid.op != "agg":
                rep.unk("pid:" + key, "internal id not understood", n.where)
                continue
            lev, rank = pid.a[2], pid.a[3]
            rep.tri(True if same_num(lev, i) else (None if opaque(uncast(lev)) and uncast(lev).op != "phi" else False), "level:" + key,
                    "the point is stored in layer %s but its internal id says %s" % (show(i, 4), show(lev, 4)), n.where)
            r = uncast(rank)
            want = length(n.call.args[0])
            y = rank
            while y.op == "cast":
                rep.req(str(y.a[0]) not in ("u8", "i8", "u16", "i16"), "rank:" + key, "the rank given to the new point is cut to the type %s: two points of a "
                        "large layer get the same internal id" % y.a[0], n.where)
                y = y.a[-1]
            if r is want:
                # read before the push, under the same guard
                rd = [m for m in f.order if m.call is not None and m.call.dest is want]
                bad = rd and all(m in f.reach(n.succ) and not f.dominates(m, n) for m in rd)
                rep.req(not bad, "rank:" + key, "the rank of the new point is read after it was stored", n.where)
            else:
                same_list = r.op == "len" and ins.layer_index(r.a[0]) is not None or \
                    (r.op == "len" and r.a[0].op in ("index", "get") and r.a[0].a[0].op == "prot" and
                     w.lock_class(r.a[0].a[0].a[0].a[0]) == w.pif["layers"])
                msg = "the rank given to the new point is %s, not the number of points of its layer at the time it is stored%s" % (
                    show(rank, 6), " (read under another lock acquisition: two concurrent insertions may be given the same rank)" if same_list else "")
                rep.tri(False if same_list or not opaque(r) or r.op == "bin" else None, "rank:" + key, msg, n.where)
    # counted once
    cs = []
    for n in f.order:
        for pl, v in n.stores:
            if pl.op == "prot" and pl.a[0].op == "guard" and w.lock_class(pl.a[0].a[0]) == w.pif["count"]:
                cs.append((n, pl, v))
    atomic = [n for n in f.order if n.call is not None and mname(n) == "fetch_add"]
    if not cs and atomic:
        for n in atomic:
            rep.tri(n.call.args[1] is I(1) or None, "count:" + key, "counter", n.where)
    elif not cs:
        rep.bad("count:" + key, "%s does not count the point stored" % b.spath, ins.wh)
    else:
        cn = {n for n, _, _ in cs}
        rep.req(all_paths(f, lambda x: x in cn), "count:" + key, "%s may return without counting the point" % b.spath, ins.wh)
        for n, pl, v in cs:
            rep.req(not (f.reach(n.succ) & cn), "count-once:" + key, "%s may count the point more than once" % b.spath, n.where)
            good = binop("Add", pl, I(1))
            steps = [x for x in v.a[1:] if x is not pl] if v.op == "bin" and v.a[0] == "Add" and pl in v.a else []
            odd = [y for x in steps for y in f.alts(x) if y.op == "int" and y is not I(1)]
            rep.tri(True if v is good else False if odd else (None if opaque(v) else False), "count-step:" + key,
                    "the number of points becomes %s (lost or wrong update)" % show(v, 6), n.where)
    # nothing else touches the layers
    for n in f.order:
        if n.call is not None and n.call.args and n not in nodes:
            m = mname(n)
            a0 = n.call.args[0]
            if (m in GROW or m in SHRINK or m in SORTS or m in ("reverse", "swap", "fill")) and \
                    (ins.layers_guard(a0) or ins.layer_index(a0) is not None):
                rep.bad("moves:" + key, "%s changes the layers by `%s`: points stored earlier may move or disappear" % (b.spath, m), n.where)
        for pl, v in n.stores:
            t = pl
            while t.op in ("field", "index"):
                if ins.layer_index(t) is not None:
                    rep.bad("moves:" + key, "%s overwrites a stored point" % b.spath, n.where)
                    break
                t = t.a[0]


def others_keep_layers(w, rep):
    """no other exported operation, apart from teardown and loading, takes the layers for writing and changes them"""
    n = 0
    for b in w.prog.bodies.values():
        if b.kind == "Closure" or not b.exported or not b.file.endswith(("hnsw.rs", "api.rs", "flatten.rs")):
            continue
        if b.name in ("drop", "new") or "insert" in b.name:
            continue
        f = w.flow(b)
        n += 1
        for x in f.order:
            for pl in [x.call.args[0]] if x.call is not None and x.call.args and (mname(x) in GROW or mname(x) in SHRINK) else []:
                gs = [g for g in guards_in(pl) if w.lock_class(g.a[0]) == w.pif["layers"] and g.a[1] == "w"]
                t = pl
                direct = t.op == "prot" or (t.op == "index" and t.a[0].op == "prot")
                if gs and direct:
                    rep.bad("removes:" + b.name, "%s changes the stored points (`%s`)" % (b.spath, mname(x)), x.where)
    rep.count("exported operations not inserting", n, 20)


def adapters(w, rep, what):
    """the other insertion functions call insert_slice with their own vector and id, once"""
    rs = roots(w)
    done = {i.body.id for i in insertions(w)}
    for b, d, i in rs[1:]:
        if b.id in done:
            continue
        f = w.flow(b, stop={rs[0][0].id}, key="ins")
        cs = [n for n in f.order if n.call is not None and n.call.name.endswith("::insert_slice")]
        s = set(cs)
        rep.req(all_paths(f, lambda x: x in s), "adapter:" + b.name, "%s may return without inserting" % b.spath)
        for n in cs:
            rep.req(not (f.reach(n.succ) & s), "adapter-once:" + b.name, "%s inserts more than once" % b.spath, n.where)
            arg_ok(rep, "adapter-args:" + b.name, b, n, n.call.args[1] if len(n.call.args) > 1 else UNDEF, d, i)


def arg_ok(rep, key, b, n, a, d, i):
    dd = agg_get(a, "0") if a.op == "agg" else T("field", a, "0")
    ii = agg_get(a, "1") if a.op == "agg" else T("field", a, "1")
    ok = strip_copy(dd) is d and ii is i
    rep.tri(True if ok else (None if opaque(a) else False), key, "%s inserts the vector %s under the id %s, not those it is given" % (
        b.spath, show(dd, 5), show(ii, 5)), n.where)


# ------------------------------------------------------------------ loops over levels
def level_range(it):
    """(lo, hi exclusive) of an iteration over integers in any order, or None"""
    while it.op in ("rev", "copy", "coll"):
        it = it.a[0]
    if it.op == "agg" and it.a[0] == "Range":
        return it.a[2], it.a[3]
    return None


def turn_edges(f, site):
    """edges taken when the iterator of `site` yields an element"""
    return [n for n in f.order if f.hof_loop.get(n.id, (0, None))[1] == site] + [n for n in f.order for pol, a in n.facts if pol and a.op == "isok" and a.a[0].op == "next" and a.a[0].a[1] == site]


def exit_edges(f, site):
    h = node_by_id(f, site)
    if h is not None and h.kind == "hof":
        return [z for z in h.succ if z.kind != "hofbind"]
    return [n for n in f.order for pol, a in n.facts if not pol and a.op == "isok" and a.a[0].op == "next" and a.a[0].a[1] == site]


def loop_over_index(f, n, idx):
    """(iterable, site) of the loop whose variable is idx, among those around n"""
    x = uncast(idx)
    for it, site in loop_nexts(f, n):
        if x.op == "elem" and x.a[1] == site:
            return it, site
        if x.op == "elem" and coll_of(x) is coll_of(it):
            return it, site
    return None


def absent(w, g):
    """predicate: the entry point is found absent under guard g (any guard if None)"""
    def p(kind, y):
        return kind == "fact" and not y[0] and y[1].op == "isok" and is_entry(w, y[1].a[0]) and (g is None or y[1].a[0].a[0] is g)
    return p


# ------------------------------------------------------------------ C08
@check("C08")
def c08(w, rep):
    for ins in insertions(w):
        c08_one(w, rep, ins)


def first_stores(w, ins):
    """entry-point stores made after finding it absent under the same write guard, with nothing linked: the first insertion"""
    f = ins.f
    fw = {x[0] for x in ins.fwd()}
    rv = {x[0] for x in ins.rev()}
    out = []
    for n, pl, v in ins.entry_stores():
        if f.holds(n, absent(w, pl.a[0])) and not any(n in f.reach(m.succ) for m in fw | rv):
            out.append(n)
    return out


def c08_one(w, rep, ins):
    f, b, key = ins.f, ins.body, ins.body.name
    firsts = set(first_stores(w, ins))
    fw = ins.fwd()
    rv = ins.rev()
    if ins.level is None:
        rep.unk("level:" + key, "level of the new point not understood", ins.wh)
        return
    if not fw:
        rep.bad("links:" + key, "%s stores no link in the new point" % b.spath, ins.wh)
    if not rv:
        rep.bad("reverse:" + key, "%s stores no link to the new point" % b.spath, ins.wh)
    if not fw or not rv:
        return
    # 1. forward lists: the loop over the point's own levels
    own = []
    for x in fw:
        n, idx = x[0], x[5]
        lp = loop_over_index(f, n, idx)
        if lp is None:
            rep.unk("levels:" + key, "level at which links are stored not understood: " + show(idx, 5), n.where)
            continue
        r = level_range(lp[0])
        if r is None:
            rep.unk("levels:" + key, "levels visited not understood: " + show(lp[0], 5), n.where)
            continue
        own.append((x, lp, r))
    covers = [(x, lp, r) for x, lp, r in own if r[0] is FALSE]
    if not covers:
        if own and len(own) == len(fw) and not any(opaque_num(z, ins) for _, _, r in own for z in r):
            rep.bad("levels:" + key, "no loop stores links in every level from the point's own down to the base (levels visited: %s)" % "; ".join(
                "%s..%s" % (show(r[0], 4), show(r[1], 4)) for _, _, r in own), own[0][0][0].where)
        else:
            rep.unk("levels:" + key, "no loop over the own levels recognised", ins.wh)
        return
    exits = set()
    for x, (it, site), r in covers:
        hi_ok = same_up(r[1], ins.level, 1)
        rep.tri(True if hi_ok else (None if opaque_num(r[1], ins) else False), "levels:" + key,
                "links are stored in the levels %s..%s (end excluded) and not in every level from the point's own (%s) down to the base" % (
                    show(r[0], 4), show(r[1], 4), show(ins.level, 4)), x[0].where)
        # each turn stores, unless no candidate was found
        sn = node_by_id(f, site)
        st = {y[0] for y, lp2, _ in covers if lp2[1] == site}

        def stored(kind, y, st=st):
            if kind == "node":
                return y in st
            pol, a = y
            return pol and a.op == "eq" and FALSE in a.a and any(z.op == "len" and is_local_coll(z.a[0]) for z in a.a)
        for ed in turn_edges(f, site):
            skip = sn in f.reach([ed], stop=lambda z: z in st or any(stored("fact", ft) for ft in z.facts))
            leave = [e for e in f.order if e.kind == "return" and e in f.reach([ed], stop=lambda z: z in st or z is sn or any(stored("fact", ft) for ft in z.facts))]
            rep.req(not skip and not leave, "each-level:" + key, "in %s a level may be passed without storing the links selected" % b.spath, ed.where)
        exits |= set(exit_edges(f, site))
        # candidates come from a search of that level
        src_level(w, rep, ins, x)
    rep.req(all_paths(f, lambda z: z in exits or z in firsts), "linked:" + key,
            "%s may return without having searched the links of the new point, though it is not the one that initialized the entry point "
            "under the write lock (another insertion may have been first)" % b.spath, ins.wh)
    # 2. reverse links
    rexits = set()
    for x in rv:
        n, kind, lst, owner, guard, idx, val = x
        r = reverse_one(w, rep, ins, x)
        rexits |= r
    if rexits:
        rep.req(all_paths(f, lambda z: z in rexits or z in firsts), "reverse:" + key,
                "%s may return without having stored the reverse links" % b.spath, ins.wh)
    # 3. publication after linking
    work = {x[0] for x in fw + rv}
    for n, pl, v in ins.entry_stores():
        if n in firsts:
            continue
        late = f.reach(n.succ) & work
        rep.req(not late, "publish:" + key, "%s makes the new point the entry point before its links are stored" % b.spath, n.where)
    rep.count("own-level link stores:" + key, len(covers), 1)
    rep.count("reverse link pushes:" + key, len(rv), 1)


def is_local_coll(t):
    t = coll_of(t)
    return t.op == "new"


def opaque_num(t, ins):
    """opaque apart from the level itself"""
    for x in subterms(t):
        if x is uncast(ins.level):
            continue
        if x.op == "phi" and choice(ins.f, x) and resolvable(ins.f, x):
            if not any(opaque_num(v, ins) for _, v in ins.f.phi_in[x]):
                continue
        if x.op in ("call", "phi", "other", "undef", "unk") and not any(x is y for y in subterms(ins.level)):
            return True
    return False


def same_up(t, base, k):
    """t == base + k"""
    t = uncast(t)
    if t.op == "bin" and t.a[0] == "Add":
        xs = [uncast(x) for x in t.a[1:]]
        return uncast(base) in xs and I(k) in xs
    return False


def src_level(w, rep, ins, x):
    """the links stored at level i come from a search that follows links of level i"""
    f = ins.f
    n, idx, val = x[0], x[5], x[6]
    if val.op == "copy":
        val = val.a[0]
    key = ins.body.name
    hs = result_heaps(w, f, [val] if not w.is_pwo(val) else [])
    found = False
    for h in hs:
        for m, agg_, s, d in entry_pushes(w, f, h, direct=True):
            pt = agg_get(agg_, w.pwo_pt)
            e = pt.a[0] if pt.op == "field" and pt.a[1] == w.pwo_pt else None
            if e is None or e.op not in ("elem", "index"):
                continue
            lst = e.a[0]
            while lst.op in KEEP:
                lst = lst.a[0]
            r = ins.nb_list(lst)
            if r is None:
                continue
            found = True
            rep.tri(True if same_num(r[3], idx) else (None if opaque_num(r[3], ins) else False), "search-level:" + key,
                    "the links stored at level %s come from a search that follows the links of level %s" % (show(idx, 4), show(r[3], 4)), m.where)
    if not found:
        rep.unk("search-level:" + key, "the search behind the links stored is not understood", n.where)


def reverse_one(w, rep, ins, x):
    """one reverse push; returns the exit edges of its loop over levels"""
    f, b, key = ins.f, ins.body, ins.body.name
    n, kind, lst, owner, guard, idx, val = x
    ents = [v for v in f.alts(val)]
    if kind != "push" or not ents or not all(w.is_pwo(v) for v in ents):
        rep.unk("reverse-entry:" + key, "write of reverse links not understood (%s)" % kind, n.where)
        return set()
    for v in ents:
        pt = agg_get(v, w.pwo_pt)
        rep.tri(True if ins.is_new(pt) else (None if opaque_num(pt, ins) else False), "reverse-entry:" + key,
                "the reverse link stored designates %s, not the new point" % show(pt, 4), n.where)
    # owner is the point of an element q of the new point's own list
    if owner.op != "field" or owner.a[1] != w.pwo_pt or owner.a[0].op not in ("elem", "index"):
        rep.unk("reverse-owner:" + key, "point receiving the reverse link not understood: " + show(owner, 5), n.where)
        return set()
    q = owner.a[0]
    seq = q.a[0]
    restr = False
    while seq.op in KEEP or (seq.op == "new" and seq.a[0] == "Vec"):
        if seq.op in ("take", "skip", "slice", "takewhile", "filter", "filtermap"):
            restr = True
        if seq.op == "new":
            break
        seq = seq.a[0]
    r = ins.nb_list(seq)
    if r is None and seq.op == "new":
        own = [y for y in ins.fwd() if y[1] == "store" and strip_copy(y[6]) is seq]
        if own:
            r = (ins.new, None, None, own[0][5])
    if r is None or not ins.is_new(r[0]):
        rep.unk("reverse-owner:" + key, "origin of the links to reverse not understood: " + show(q, 6), n.where)
        return set()
    rep.req(not restr, "reverse-all:" + key, "only a part of the new point's links is reversed", n.where)
    lp = loop_over_index(f, n, r[3])
    # level at which the reverse link is stored
    okidx = same_num(idx, ins.level) or same_num(idx, r[3])
    rep.tri(True if okidx else (None if opaque_num(idx, ins) else False), "reverse-level:" + key,
            "the reverse link is stored at level %s: neither the new point's level nor the level of the link" % show(idx, 4), n.where)
    if lp is None:
        rep.unk("reverse-levels:" + key, "loop over the levels not understood", n.where)
        return set()
    rg = level_range(lp[0])
    if rg is None:
        rep.unk("reverse-levels:" + key, "levels visited not understood: " + show(lp[0], 5), n.where)
    else:
        good = rg[0] is FALSE and same_up(rg[1], ins.level, 1)
        rep.tri(True if good else (None if opaque_num(rg[0], ins) or opaque_num(rg[1], ins) else False), "reverse-levels:" + key,
                "reverse links are stored for the levels %s..%s (end excluded) and not for every level of the new point" % (show(rg[0], 4), show(rg[1], 4)), n.where)
    # every turn pushes unless self or already linked
    nx = loop_nexts(f, n)
    inner = nx[-1][1] if nx else None
    if inner is not None and inner != lp[1]:
        sn = node_by_id(f, inner)

        def excused(ft):
            pol, a = ft
            if pol and a.op == "eq" and self_test(w, ins, a, owner):
                return True
            if pol and a.op == "isok" and a.a[0].op in ("position", "find", "getslice", "rposition") and dup_test(w, ins, a.a[0], lst):
                return True
            if pol and a.op == "any" and dup_test(w, ins, a, lst):
                return True
            return pol and dup_elem(w, ins, a, lst)

        def exc(k, y):
            return k == "fact" and excused(y)
        allrev = {y[0] for y in ins.rev()}
        for ed in turn_edges(f, inner):
            reach = f.reach([ed], stop=lambda z: z in allrev or any(f.fact_sat(ft, exc, 0) for ft in z.facts))
            if sn in reach or any(e in reach for e in exit_edges(f, lp[1])):
                # which test skips?
                tests = [(p, a) for z in reach for p, a in z.facts if not (a.op == "isok" and a.a[0].op == "next")]
                unk = any(a.op in ("phi", "call") or (a.op != "phi" and opaque_num(a, ins)) for p, a in tests)
                rep.tri(None if unk and not all(understood(ins, a) for p, a in tests) else False, "reverse-each:" + key,
                        "%s may skip the reverse link to a neighbour that is neither the point itself nor already linked" % b.spath, ed.where)
            else:
                rep.ok("reverse-each:" + key, ed.where)
        # leaving the inner loop early
        out = leaves(f, inner)
        rep.req(out is None, "reverse-rest:" + key, "%s may stop storing reverse links before the last link of the new point%s" % (
            b.spath, " (leaving at %s)" % out.where if out is not None else ""), n.where)
    return set(exit_edges(f, lp[1]))


def understood(ins, a):
    return not any(x.op in ("phi", "call", "other", "undef") and not any(x is y for y in subterms(ins.new)) for x in subterms(a))


def pid_like(w, t, point):
    """t identifies the point: its internal id, its caller's id, or itself"""
    if t is point:
        return True
    for r in ("pid", "id"):
        if t is T("field", point, w.pf[r]) or (point.op == "agg" and t is agg_get(point, w.pf[r])):
            return True
    return False


def self_test(w, ins, a, owner):
    x, y = a.a
    return (pid_like(w, x, ins.new) and pid_like(w, y, owner)) or (pid_like(w, y, ins.new) and pid_like(w, x, owner))


def dup_test(w, ins, t, lst, full=False):
    """position/any(lst, entry is the new point)"""
    seq = t.a[0]
    if full and not whole(seq):
        return False
    while seq.op in KEEP:
        seq = seq.a[0]
    if seq is not lst:
        return False
    return dup_eq(w, ins, t.a[1]) is not None


def dup_eq(w, ins, pr):
    """the element of a list of links which pr compares with the new point"""
    if pr.op != "eq":
        return None
    for x, y in ((pr.a[0], pr.a[1]), (pr.a[1], pr.a[0])):
        if pid_like(w, x, ins.new):
            b, ns = peel_field(y)
            if b.op in ("elem", "index") and ns[:1] == [w.pwo_pt] and ns[1:] in ([w.pf["pid"]], [w.pf["id"]], []):
                return b
    return None


def dup_elem(w, ins, pr, lst):
    """pr compares the new point with an element of the list"""
    b = dup_eq(w, ins, pr)
    return b is not None and coll_of(b) is coll_of(lst) and (b.a[0] is lst or any(x is lst for x in subterms(b)))


def scanned(w, ins, a, lst):
    """a loop over the whole list comes to its end, each turn having found another point than the new one"""
    f = ins.f
    if a.op != "isok" or a.a[0].op != "next":
        return False
    seq, site = a.a[0].a
    while seq.op in KEEP and seq.op not in ("filter", "take", "skip", "slice", "takewhile", "filtermap"):
        seq = seq.a[0]
    sn = node_by_id(f, site)
    if seq is not lst or sn is None:
        return False
    outer = set(f.doms(sn)) - {sn}
    return all(sn not in f.reach([ed], stop=lambda z: z in outer or any(not p and dup_elem(w, ins, x, lst) for p, x in z.facts)) for ed in turn_edges(f, site))


# ------------------------------------------------------------------ C09
@check("C09")
def c09(w, rep):
    for ins in insertions(w):
        c09_one(w, rep, ins)
    # reader of the maximum level
    for impl in ("Hnsw", "PointIndexation"):
        b = w.fn_opt("get_max_level_observed", impl_of=impl)
        if b is None:
            continue
        f = w.flow(b)
        seen = 0
        for p, r in f.results():
            for t in f.alts(r):
                ok = level_of_entry(w, f, t)
                rep.tri(ok, "observed:" + impl, "%s returns %s, not the level of the entry point" % (b.spath, show(t, 6)), "%s:%d" % (b.file, b.line))
                seen += 1
    rep.count("entry-point replacements", sum(1 for i in insertions(w) for _ in i.entry_stores()), 1)
    # no other operation writes it
    for b in w.prog.bodies.values():
        if b.kind == "Closure" or not b.exported or not b.file.endswith(("hnsw.rs", "api.rs", "flatten.rs")):
            continue
        if b.name in ("drop", "new") or "insert" in b.name:
            continue
        f = w.flow(b)
        for n in f.order:
            for pl, v in n.stores:
                if is_entry(w, pl):
                    rep.bad("other:" + b.name, "%s changes the entry point" % b.spath, n.where)


def level_of_entry(w, f, t):
    t = uncast(t)
    if t is FALSE:
        return True
    if t.op == "unwrap_or":
        return t.a[1] is FALSE and level_of_entry(w, f, t.a[0])
    if t.op == "optmap":
        return level_of_entry(w, f, t.a[1])
    b, ns = peel_field(t)
    if b.op == "pay" and is_entry(w, b.a[0]) and ns == [w.pf["pid"], "0"]:
        return True
    return None if opaque(t) else False


def level_cmp(w, ins, a, g):
    """a is lt(current level, new level) (current read under guard g, or any guard if g is None): 'up';
    lt(new, current): 'down'; else None"""
    if a.op != "lt":
        return None

    def cur(t):
        b, ns = peel_field(uncast(t))
        return b.op == "pay" and is_entry(w, b.a[0]) and ns == [w.pf["pid"], "0"] and (g is None or b.a[0].a[0] is g)
    if cur(a.a[0]) and same_num(a.a[1], ins.level):
        return "up"
    if cur(a.a[1]) and same_num(a.a[0], ins.level):
        return "down"
    return None


def c09_one(w, rep, ins):
    f, b, key = ins.f, ins.body, ins.body.name
    if ins.level is None:
        rep.unk("level:" + key, "level of the new point not understood", ins.wh)
        return
    stores = list(ins.entry_stores())
    if not stores:
        rep.bad("set:" + key, "%s never sets the entry point" % b.spath, ins.wh)
        return
    pushes = {n for n, _, _ in ins.layer_push}
    for n, pl, v in stores:
        g = pl.a[0]
        if g.a[1] != "w":
            rep.unk("atomic:" + key, "entry point written through a guard not understood", n.where)
        some = v.op == "agg" and v.a[0] == "Option::Some"
        if not some:
            rep.tri(None if opaque(v) else False, "set:" + key, "%s sets the entry point to %s" % (b.spath, show(v, 4)), n.where)
        else:
            rep.tri(True if ins.is_new(v.a[2]) else (None if opaque_num(v.a[2], ins) else False), "set:" + key,
                    "%s sets the entry point to %s, not the new point" % (b.spath, show(v.a[2], 4)), n.where)
        rep.req(f.holds(n, lambda k, y: k == "node" and y in pushes), "stored-first:" + key,
                "%s makes entry point a point not yet stored in its layer" % b.spath, n.where)
        cmpok = f.holds(n, lambda k, y: absent(w, g)(k, y) or (k == "fact" and y[0] and level_cmp(w, ins, y[1], g) == "up"))
        if cmpok:
            rep.ok("decide:" + key, n.where, "under the same write guard: absent or strictly lower")
            continue
        facts = f.facts_at(n)
        anyg = f.holds(n, lambda k, y: absent(w, None)(k, y) or (k == "fact" and y[0] and level_cmp(w, ins, y[1], None) == "up"))
        if anyg:
            rep.bad("decide:" + key, "%s replaces the entry point on a decision made under another lock acquisition: a concurrent insertion may have "
                    "changed it meanwhile" % b.spath, n.where)
            continue
        unk = [a for p, a in facts if any(is_entry(w, x) for x in subterms(a)) and not understood(ins, a)]
        rep.tri(None if unk else False, "decide:" + key, "%s replaces the entry point without having found it absent or of a strictly lower level (tests: %s)" % (
            b.spath, "; ".join(("" if p else "not ") + show(a, 7) for p, a in facts if any(is_entry(w, x) for x in subterms(a))) or "none"), n.where)
    # and a point of a higher level does replace it
    sn = {n for n, _, _ in stores}

    def lower(kind, y):
        if kind == "node":
            return y in sn
        pol, a = y
        if not pol and level_cmp(w, ins, a, None) == "up":
            return True
        return False
    ends = [n for n in f.order if n.kind == "return" and n.ctx.parent is None]
    for e in ends:
        r = f.holds(e, lower)
        tests = [a for n in f.order for p, a in n.facts if level_cmp(w, ins, a, None)]
        rep.tri(True if r else (False if tests or all(understood(ins, a) for n in f.order for p, a in n.facts
                                                      if any(is_entry(w, x) for x in subterms(a))) else None),
                "raise:" + key, "%s may return leaving as entry point a point of a lower level than the new one" % b.spath, ins.wh)


# ------------------------------------------------------------------ C10
def max_conn(w):
    """field of the index holding the maximum number of links"""
    b = w.fn("get_max_nb_connection", impl_of="Hnsw")
    for t in result_alts(w.flow(b)):
        t = uncast(t)
        if t.op == "field" and t.a[0] is P(1):
            return t
    return None


def is_double(t, mx):
    t = uncast(t)
    if t.op == "bin" and t.a[0] in ("Mul", "Add", "Shl"):
        xs = [uncast(x) for x in t.a[1:]]
        if t.a[0] == "Mul":
            return mx in xs and I(2) in xs
        if t.a[0] == "Add":
            return xs[0] is mx and xs[1] is mx
        return xs[0] is mx and xs[1] is I(1)
    return False


def is_base(f, level, at):
    """the list is known to be that of the base level"""
    if level is FALSE:
        return True
    lv = uncast(level)
    for pol, a in f.facts_at(at):
        if pol and a.op == "eq" and FALSE in a.a and any(uncast(x) is lv for x in a.a):
            return True
        if not pol and a.op == "lt" and a.a[0] is FALSE and uncast(a.a[1]) is lv:
            return True
        if pol and a.op == "lt" and uncast(a.a[0]) is lv and a.a[1] is I(1):
            return True
    return False


def limit_ok(w, f, bounds, mx, level, at, depth=0):
    """one of the bounds is an allowed number of links for a list of that level: True / False / None"""
    best = False
    for t in bounds:
        u = uncast(t)
        if u is mx:
            return True
        if is_double(u, mx):
            if is_base(f, level, at):
                return True
            continue
        if (u.op == "phi" or ways(f, u)) and depth < 5:
            rs = []
            for p, v in ways(f, u) or ():
                rs.append(limit_ok(w, f, mins(v), mx, level, p, depth + 1))
            if rs and all(x is True for x in rs):
                return True
            if None in rs:
                best = None
            continue
        if u.op == "len":
            continue
        if u.op == "bin" and u.a[0] == "Add" and any(x.op == "int" and x.a[0] > 0 for x in u.a[1:]):
            rest = [x for x in u.a[1:] if x.op != "int"]
            if len(rest) == 1 and limit_ok(w, f, rest, mx, level, at, depth + 1) is not None:
                continue                     # more than a limit
        if opaque(u):
            best = None
    return best


def coll_bounds(f, c, g):
    """X such that the length of the collection c is known at g to be at most X, c not growing since"""
    out = set()
    for pol, a in f.facts_at(g):
        if pol and a.op == "lt" and a.a[0] is length(c):
            b = mins(a.a[1])
        elif not pol and a.op == "lt" and a.a[1] is length(c):
            b = mins(a.a[0])
        else:
            continue
        eds = [e for e in f.order if (pol, a) in e.facts]
        grown = [y for y in events(f, c, GROW) if any(y in f.reach(e.succ, stop=lambda z: z in eds) for e in eds) and
                 g in f.reach(y.succ, stop=lambda z: z in eds)]
        if not grown:
            out |= b
    return out


def drain_bound(f, g, v):
    """bounds of v when push g moves into it, one by one, the elements popped from a collection c known to be no longer than X,
    or those of a sequence gone through once"""
    out = set()
    cre = node_by_id(f, v.a[1])
    if mname(g) != "push":
        seq = strip_copy(g.call.args[-1])
        c = coll_of(elem(seq, g.id))
        if in_cycle(f, g, lambda z: z is cre):
            return out
        return (upper(f, seq) or set()) | (coll_bounds(f, c, g) if c.op in ("new", "coll", "param") else set())
    for x in subterms(g.call.args[-1]):
        if x.op == "pop":
            site = node_by_id(f, x.a[1])
            if site is not None and not in_cycle(f, g, lambda z: z is site):
                out |= coll_bounds(f, x.a[0], g)
    nx = [(it, s) for it, s in loop_nexts(f, g) if cre is None or not any(s == s2 for _, s2 in loop_nexts(f, cre))]
    if len(nx) == 1:
        it, s = nx[0]
        site = node_by_id(f, s)
        if site is not None and not in_cycle(f, g, lambda z: z is site):
            out |= upper(f, it) or set()
            if it.op == "agg" and it.a[0] == "Range" and it.a[2] is I(0):
                out |= mins(it.a[3])
            c = coll_of(elem(it, s))
            if c.op in ("new", "coll", "param"):
                out |= coll_bounds(f, c, g)
    return out


def weakly_bound(f, g, v):
    """the length of v is tested between two runs of push g, or the number of runs depends on it"""
    L = length(v)

    def tested(kind, y):
        return kind == "fact" and y[1].op in ("lt", "eq") and any(z is L for z in subterms(y[1]))
    return f.holds(g, tested, since=g) and in_cycle(f, g, lambda z: False) or any(L in subterms(it) for it, s in loop_nexts(f, g))


def list_upper(f, v):
    """upper bounds of a local vector, each push bounded by a test on its length or by the collection it drains"""
    u = upper(f, v)
    if u:
        return u
    if v.op != "new":
        return u
    grow = list(events(f, v, GROW))
    per = []
    for g in grow:
        b = guard_bound(f, g, v)
        d = drain_bound(f, g, v)
        if d:
            # the vector was empty when the transfer began: no other push leads here
            before = [h for h in grow if h is not g and g in f.reach(h.succ, stop=lambda z: z.call is not None and z.call.args and
                                                                        z.call.args[0] is v and mname(z) == "clear") and
                      h in f.reach([node_by_id(f, v.a[1])])]
            cre = node_by_id(f, v.a[1])
            before = [h for h in before if g in f.reach(h.succ, stop=lambda z: z is cre or (z.call is not None and z.call.args and
                                                                                            z.call.args[0] is v and mname(z) == "clear"))]
            if not before:
                b = b | d
        per.append(b)
    return common_bounds(per) or None


@check("C10")
def c10(w, rep):
    mx = max_conn(w)
    if mx is None:
        rep.unk("limit", "maximum number of connections not identified")
        return
    n = 0
    for ins in insertions(w):
        n += c10_one(w, rep, ins, mx)
    rep.count("writes growing a list of links", n, 2)


def c10_one(w, rep, ins, mx):
    f, b, key = ins.f, ins.body, ins.body.name
    cnt = 0
    shr = [x for x in ins.writes if x[1] in SHRINK]
    for x in ins.writes:
        n, kind, lst, owner, guard, idx, val = x
        if kind == "store":
            cnt += 1
            v = strip_copy(val)
            u = list_upper(f, v)
            if u is None:
                # an unguarded push is a violation when every event is understood
                gs = list(events(f, v, GROW)) if v.op == "new" else []
                un = [g for g in gs if not guard_bound(f, g, v) and not drain_bound(f, g, v) and not weakly_bound(f, g, v)]
                if gs and un and all(mname(g) == "push" for g in gs):
                    rep.bad("bound:own:" + key, "%s stores as links a list to which a push (%s) is not bounded by the maximum number of links" % (b.spath, un[0].where), n.where)
                else:
                    rep.unk("bound:own:" + key, "length of the list stored not understood: " + show(val, 5), n.where)
            else:
                rep.tri(limit_ok(w, f, u, mx, idx, n), "bound:own:" + key, "%s stores at level %s a list of links whose length is only bounded by {%s}" % (
                    b.spath, show(idx, 4), ", ".join(sorted(show(z, 5) for z in u))), n.where)
            continue
        if kind not in GROW:
            continue
        cnt += 1
        kk = "own" if ins.is_new(owner) else "reverse"
        # tested before
        pre = set()
        for pol, a in f.facts_at(n):
            if pol and a.op == "lt" and a.a[0].op == "len":
                r = ins.nb_list(a.a[0].a[0])
                if r and r[0] is owner and same_num(r[3], idx) and (r[2] is guard or ins.is_new(owner)):
                    pre |= mins(a.a[1])
        if kind == "push" and pre and limit_ok(w, f, pre, mx, idx, n) is True:
            rep.ok("bound:%s:%s" % (kk, key), n.where, "length tested before the push")
            continue
        # reduced after
        ln = length(lst)
        okb, und = [], []

        def reduced(k, y):
            if k == "node":
                for z in shr:
                    if z[0] is y and z[2] is lst:
                        if z[1] == "truncate":
                            return limit_ok(w, f, mins(y.call.args[1]), mx, idx, y) is True
                        if z[1] == "pop":
                            for pol, a in f.facts_at(y):
                                if a.op == "lt" and pol and a.a[1] is ln and limit_ok(w, f, mins(a.a[0]), mx, idx, y) is True:
                                    return True
                                if a.op == "lt" and not pol and a.a[0] is ln and limit_ok(w, f, {a.a[1]}, mx, idx, y) is True:
                                    return True
                return False
            pol, a = y
            if a.op != "lt":
                return False
            at = cur[0]
            if not pol and a.a[1] is ln:
                return limit_ok(w, f, mins(a.a[0]), mx, idx, n) is True
            if pol and a.a[0] is ln:
                return limit_ok(w, f, mins(a.a[1]), mx, idx, n) is True
            return False
        cur = [None]
        # from the push, every way on (to a return or to a new turn) is reduced first
        ok = True
        nx = loop_nexts(f, n)
        ends = [e for e in f.order if e.kind == "return" and e.ctx.parent is None]
        if nx:
            ends.append(node_by_id(f, nx[-1][1]))
        r = f.reach(n.succ, stop=lambda z: reduced("node", z) or any(reduced("fact", ft) for ft in z.facts))
        ok = not any(e in r and not (reduced("node", e) or any(reduced("fact", ft) for ft in e.facts)) for e in ends)
        if ok:
            rep.ok("bound:%s:%s" % (kk, key), n.where, "reduced under the same guard after the push")
        else:
            tests = [(p, a) for z in f.order for p, a in z.facts if a.op == "lt" and ln in a.a]
            und = any(limit_ok(w, f, {a.a[0] if a.a[1] is ln else a.a[1]}, mx, idx, n) is None for p, a in tests)
            rep.tri(None if und else False, "bound:%s:%s" % (kk, key), "%s pushes a link in a list that may then exceed the maximum number of links" % b.spath, n.where)
        # the farthest one is dropped
    for z in shr:
        n, kind, lst, owner, guard, idx, val = z
        if kind not in ("pop", "truncate"):
            rep.unk("farthest:" + key, "links removed by `%s`" % kind, n.where)
            continue
        grow = [y[0] for y in ins.writes if y[2] is lst and y[1] in GROW]
        good, wrong, unk_ = set(), [], False
        for y in ins.writes:
            if y[2] is lst and y[1] == "insert":
                unk_ = True
            if y[2] is lst and (y[1] in SORTS or y[1] == "reverse"):
                o = sort_dir(w, ins, y[0]) if y[1] in SORTS else "rev"
                if o == "asc":
                    good.add(y[0])
                elif o is None:
                    unk_ = True
                else:
                    wrong.append(y[0])
        if wrong:
            rep.bad("farthest:" + key, "%s drops the last link of a list that is not sorted by increasing distance" % b.spath, n.where)
            continue
        ok = all(n not in f.reach(g.succ, stop=lambda q: q in good) for g in grow)
        rep.tri(True if ok else (None if unk_ else False), "farthest:" + key, "%s drops the last link of a list not sorted since the new link was added: "
                "the link dropped may not be the farthest" % b.spath, n.where)
    return cnt


def sort_dir(w, ins, n):
    """direction of the sort event n on a list of links"""
    f = ins.f
    o, k = comparator(f, n)
    if o == "ord":
        a, b = ord_dir(w, "Ord", w.pwo_name, w.pwo_d), ord_dir(w, "PartialOrd", w.pwo_name, w.pwo_d)
        return a if a == b and a in ("asc", "desc") else None if None in (a, b) else "none"
    if o in ("asc", "desc") and k and k[-1] == w.pwo_d:
        return o
    return None


# ------------------------------------------------------------------ C11
@check("C11")
def c11(w, rep):
    n = 0
    for ins in insertions(w):
        n += c11_one(w, rep, ins)
    rep.count("writes of links", n, 2)


def c11_one(w, rep, ins):
    f, b, key = ins.f, ins.body, ins.body.name
    cnt = 0
    for x in ins.writes:
        n, kind, lst, owner, guard, idx, val = x
        if kind == "store":
            cnt += 1
            v = strip_copy(val)
            if v.op != "new":
                rep.unk("dist:own:" + key, "list stored not understood", n.where)
                continue
            for g in events(f, v, GROW):
                for e in f.alts(g.call.args[-1]):
                    if mname(g) in ("extend", "append", "extend_from_slice"):
                        e = elem(strip_copy(e), g.id)
                    entry_dist(w, rep, ins, e, "dist:own:" + key, g)
            o = Order(w, f, names(w)).of(v)
            o2 = own_sorted(w, ins, v, n)
            if o2 is True or o in ("asc", "any"):
                rep.ok("sorted:own:" + key, n.where)
            elif o2 is False or o in ("desc", "none"):
                rep.bad("sorted:own:" + key, "the links of the new point are stored without being sorted by increasing distance", n.where)
            else:
                rep.unk("sorted:own:" + key, "order of the list not understood", n.where)
        elif kind in GROW and ins.is_new(owner):
            cnt += 1
            for e in f.alts(val):
                entry_dist(w, rep, ins, e, "dist:own:" + key, n)
        elif kind in GROW:
            cnt += 1
            rev_link(w, rep, ins, x)
    return cnt


def own_sorted(w, ins, v, at):
    """v is sorted in increasing order between its last push and `at`: True/False/None"""
    f = ins.f
    good, odd = set(), False
    for y in events(f, v):
        m = mname(y)
        if m in SORTS:
            o, k = comparator(f, y)
            if o == "ord":
                o = Order(w, f, names(w)).ord_of_elem(y)
            if o == "asc":
                good.add(y)
            elif o is None:
                odd = True
            else:
                return False
        elif m == "reverse":
            odd = True
    cre = node_by_id(f, v.a[1])
    late = [g for g in events(f, v, GROW) if at in f.reach(g.succ, stop=lambda z: z in good or z is cre)]
    if not late:
        return True
    return None if odd else False


def entry_dist(w, rep, ins, e, key, n):
    """the entry stored carries the distance between the new point and the point it designates"""
    f = ins.f
    if w.is_pwo(e):
        pt, d = agg_get(e, w.pwo_pt), agg_get(e, w.pwo_d)
    else:
        pt, d = T("field", e, w.pwo_pt), T("field", e, w.pwo_d)
    r, why = dist_verdict(w, f, d, pt, ins.data)
    rep.tri(r, key, "a link of the new point does not carry the distance between the two points: " + str(why), n.where)


def rev_link(w, rep, ins, x):
    f, b, key = ins.f, ins.body, ins.body.name
    n, kind, lst, owner, guard, idx, val = x
    nx = loop_nexts(f, n)
    site = node_by_id(f, nx[-1][1]) if nx else None
    for e in f.alts(val):
        if not w.is_pwo(e):
            rep.unk("dist:reverse:" + key, "reverse link not understood", n.where)
            continue
        s, d = sign_of(agg_get(e, w.pwo_d), None)
        pt = agg_get(e, w.pwo_pt)
        if not ins.is_new(pt):
            rep.unk("dist:reverse:" + key, "reverse link not understood", n.where)
            continue
        if d.op == "field" and d.a[1] == w.pwo_d:
            q = d.a[0]
            same = T("field", q, w.pwo_pt) is owner
            rep.req(same and s > 0, "dist:reverse:" + key, "a reverse link carries %s, not the distance to the point it is stored in" % show(agg_get(e, w.pwo_d), 6), n.where)
        elif d.op == "eval":
            vs = d.a[1:]
            nv = [v for v in vs if v is ins.data or is_data_of(w, v, ins.new) or v is pd_vec(w, agg_get(ins.new, w.pf["data"])) or
                  (strip_copy(v) is ins.data)]
            ov = [v for v in vs if is_data_of(w, v, owner)]
            rep.tri(True if nv and ov and s > 0 else (None if any(opaque_num(v, ins) for v in vs) else False), "dist:reverse:" + key,
                    "a reverse link carries the distance between %s" % " and ".join(show(v, 5) for v in vs), n.where)
        else:
            rep.tri(None if opaque_num(d, ins) and not arith(d) else False, "dist:reverse:" + key, "a reverse link carries %s as distance" % show(d, 5), n.where)
    # no self link, no duplicate
    def notself(k, y):
        return k == "fact" and not y[0] and y[1].op == "eq" and self_test(w, ins, y[1], owner)

    def notdup(k, y):
        if k != "fact" or y[0]:
            return False
        a = y[1]
        return scanned(w, ins, a, lst) or (a.op == "isok" and a.a[0].op in ("position", "find", "rposition") and dup_test(w, ins, a.a[0], lst, True)) or \
            (a.op == "any" and dup_test(w, ins, a, lst, True))
    for nm, pr, msg in (("self", notself, "without testing that the two points differ: a point could be linked to itself"),
                        ("dup", notdup, "without testing under the same lock that it is not already in that list: links could be duplicated")):
        r = f.holds(n, pr, since=site) if site is not None else f.holds(n, pr)
        if r:
            rep.ok("%s:%s" % (nm, key), n.where)
            continue
        und = [a for p, a in f.facts_at(n) if not (a.op == "isok" and a.a[0].op == "next") and
               any(z.op in ("phi", "call") and not any(z is q for q in subterms(ins.new)) for z in subterms(a)) and
               any(z is lst or z is owner for z in subterms(a))]
        if nm == "self" and not und:
            # other point identity tests may be hidden in the origin of q: own lists never contain the point itself
            pass
        rep.tri(None if und else False, "%s:%s" % (nm, key), "%s pushes a reverse link %s" % (b.spath, msg), n.where)
    # sorted again before the guard is released
    good, wrong, odd = set(), [], False
    for y in ins.writes:
        if y[2] is lst and y[1] == "insert":
            odd = True          # put at a place chosen for it
        if y[2] is lst and y[1] in SORTS:
            o = sort_dir(w, ins, y[0])
            if o == "asc":
                good.add(y[0])
            elif o is None:
                odd = True
            else:
                wrong.append(y[0])
    ends = [e for e in f.order if e.kind == "return" and e.ctx.parent is None] + ([site] if site is not None else [])
    r = f.reach(n.succ, stop=lambda z: z in good)
    ok = not any(e in r for e in ends)
    rep.tri(False if wrong else True if ok else (None if odd or kind != "push" else False), "sorted:reverse:" + key,
            "%s leaves a list of links unsorted after adding a reverse link" % b.spath, n.where)


# ------------------------------------------------------------------ C12
@check("C12")
def c12(w, rep):
    b = w.fn("insert_slice", impl_of="Hnsw")
    ins = insertions(w)[0]
    pr = w.prog
    gen = [a for p, a in pr.adts.items() if a.local and p.split("::")[-1] == "LayerGenerator"]
    g = w.fn_opt("generate", impl_of="LayerGenerator")
    if not gen or g is None:
        rep.unk("generate", "level generator not recognised")
        return
    f = w.flow(g)
    mxf = [nm for nm, ti, v in gen[0].fields if pr.ts(ti) == "usize"]
    nres = 0
    for p, r in f.results():
        for t, at in alts_where(f, r, p):
            nres += 1
            v = below_max(f, t, at, mxf)
            rep.tri(v, "generated", "a level %s may be generated that is not below the maximum number of levels" % show(t, 6), g.file + ":%d" % g.line)
    rep.count("values returned by the level generator", nres, 1)
    # the level stored is the one generated
    if ins.level is not None:
        src = uncast(ins.level)
        got = set()
        for n in ins.f.order:
            pass
    # the generator is given the index's number of levels
    ng = 0
    for body in pr.bodies.values():
        if body.kind == "Closure" or body.impl_self is None or not body.exported or body.name not in ("new", "load_hnsw", "load_hnsw_with_dist"):
            continue
        adt = pr.adt_of(body.impl_self)
        if adt is None or adt.split("::")[-1] not in ("Hnsw", "HnswIo"):
            continue
        ff = w.flow(body)
        for n in ff.order:
            for v in n.aggs:
                if v.op == "agg" and v.a[0] == "Hnsw":
                    pi = agg_get(v, w.hf["pi"])
                    lg = T("field", pi, w.pif["gen"])
                    if pi is not None and pi.op == "agg":
                        lg = agg_get(pi, w.pif["gen"])
                    ml = hnsw_max_layer(w)
                    if lg is None or ml is None:
                        continue
                    mine = agg_get(v, ml)
                    for nm in mxf:
                        for lga in ff.alts(lg):
                            got = agg_get(lga, nm) if lga.op in ("agg", "with") else T("field", lga, nm)
                            if got is None or mine is None:
                                continue
                            ng += 1
                            rep.tri(True if same_num(got, mine) else (None if opaque_x(got) or opaque_x(mine) else False), "maxlevel:" + body.name,
                                    "%s gives the level generator %s levels and the index %s" % (body.spath, show(got, 5), show(mine, 5)), n.where)
    rep.count("indexes built", ng, 1)
    # scale modification
    b = w.fn("modify_level_scale", impl_of="Hnsw")
    f = w.flow(b)
    sf = [nm for nm, ti, v in gen[0].fields if pr.ts(ti) == "f64"]
    ns = 0
    for n in f.order:
        for pl, v in n.stores:
            if pl.op == "field" and pl.a[1] in sf and peel_field(pl)[0] is P(1):
                ns += 1
                scale_ok(w, rep, f, n, pl, v)
    rep.count("scale updates", ns, 1)
    # default scale
    nb = w.fn_opt("new", impl_of="LayerGenerator")
    if nb is not None:
        f = w.flow(nb)
        for t in result_alts(f):
            for s in sf:
                d = agg_get(t, s)
                if d is None:
                    continue
                ok = default_scale(d)
                rep.tri(ok, "default-scale", "the default scale is %s, not 1/ln(number of connections)" % show(d, 7), "%s:%d" % (nb.file, nb.line))


def opaque_x(t):
    return opaque(t) or any(x.op in ("readbytes", "decode", "pay") for x in subterms(t))


def default_scale(d):
    if d.op == "bin" and d.a[0] == "Div" and d.a[1].op == "float" and float(d.a[1].a[0]) == 1.0:
        x = d.a[2]
        if x.op == "call" and x.a[0].endswith("::ln"):
            return True if uncast(x.a[2]) is P(1) else (None if opaque(uncast(x.a[2])) else False)
    return None if opaque(d) else False


def hnsw_max_layer(w):
    b = w.fn("get_max_level", impl_of="Hnsw")
    for t in result_alts(w.flow(b)):
        t = uncast(t)
        if t.op == "field" and t.a[0] is P(1):
            return t.a[1]
    return None


def alts_where(f, r, p, depth=0):
    """(alternative, point at which it is chosen)"""
    if r.op == "phi" and depth < 6 and f.phi_in.get(r):
        for q, v in f.phi_in[r]:
            yield from alts_where(f, v, q, depth + 1)
    else:
        yield r, p


def below_max(f, t, at, mxf):
    """t < maximum: True/False/None"""
    def ismax(x):
        x = uncast(x)
        return x.op == "field" and x.a[1] in mxf and x.a[0] is P(1)
    u = uncast(t)
    if f.holds_at(at, lambda k, y: k == "fact" and y[0] and y[1].op == "lt" and uncast(y[1].a[0]) is u and
                  any(ismax(z) for z in mins(y[1].a[1])), 0):
        return True
    for x in mins(u):
        x = uncast(x)
        if x.op == "bin" and x.a[0] == "Sub" and ismax(x.a[1]) and x.a[2].op == "int" and x.a[2].a[0] >= 1:
            return True
        if x.op == "satsub" and ismax(x.a[0]) and x.a[1].op == "int" and x.a[1].a[0] >= 1:
            return True
        if x.op == "bin" and x.a[0] == "Rem" and ismax(x.a[2]):
            return True
        if x.op == "call":
            if x.a[0].endswith("::sample") and x.a[-1].op == "call" and x.a[-1].a[0].startswith("Uniform::"):
                u2 = x.a[-1]
                if u2.a[0] == "Uniform::new" and any(ismax(z) for z in mins(u2.a[-1])):
                    return True
                hi = u2.a[-1]
                if u2.a[0] == "Uniform::new_inclusive" and hi.op == "bin" and hi.a[0] == "Sub" and ismax(hi.a[1]):
                    return True
                return None if opaque(u2.a[-1]) else False
            if x.a[0].split("::")[-1] in ("random_range", "gen_range") and x.a[-1].op == "agg" and x.a[-1].a[0] == "Range":
                return True if any(ismax(z) for z in mins(x.a[-1].a[3])) else (None if opaque(x.a[-1].a[3]) else False)
    # a draw of an unbounded law kept without any test
    if any(x.op == "call" and x.a[0].endswith("::sample") for x in subterms(u)):
        tested = [a for p, a in f.facts_at(at[0] if isinstance(at, tuple) else at)] if at is not None else []
        return False
    # one more than a level only known to be below the maximum
    if u.op == "bin" and u.a[0] == "Add" and any(x.op == "int" and x.a[0] >= 1 for x in u.a[1:]):
        rest = [uncast(x) for x in u.a[1:] if x.op != "int"]
        node = at[0] if isinstance(at, tuple) else at
        if len(rest) == 1 and node is not None and not any(rest[0] in subterms(a) for _, a in f.facts_at(node)) and \
                all(below_max(f, v, q if q is not None else at, mxf) is True for q, v in f.alts_at(rest[0])):
            return False
    return None if opaque(u) else False


def scale_ok(w, rep, f, n, pl, v):
    """new scale = old scale * factor with factor in [0.2, 1]"""
    facs = []
    if v.op == "bin" and v.a[0] == "Mul" and pl in v.a[1:]:
        facs = [x for x in v.a[1:] if x is not pl] or [pl]
    if not facs:
        rep.tri(None if opaque(v) else False, "scale", "the level scale becomes %s" % show(v, 6), n.where)
        return
    lo = hi = None
    und = False
    for x, at in alts_where(f, facs[0], n):
        l = h = False
        for y in mins(x):
            if y.op == "float" and float(y.a[0]) <= 1.0:
                h = True
        for y in low(x):
            if y.op == "float" and float(y.a[0]) >= 0.2:
                l = True
        for pol, a in f.facts_at(at if not isinstance(at, tuple) else at[0]):
            if a.op == "lt" and a.a[0].op == "float" and a.a[1] is x and not pol and float(a.a[0].a[0]) <= 1.0:
                h = True
            if a.op == "lt" and a.a[1].op == "float" and a.a[0] is x and not pol and float(a.a[1].a[0]) >= 0.2:
                l = True
            if a.op == "lt" and pol and a.a[0] is x and a.a[1].op == "float" and float(a.a[1].a[0]) <= 1.0:
                h = True
            if a.op == "lt" and pol and a.a[1] is x and a.a[0].op == "float" and float(a.a[0].a[0]) >= 0.2:
                l = True
        und = und or opaque(x)
        rep.tri(True if h else (None if opaque(x) else False), "scale-max", "a factor above 1 is applied to the level scale (%s)" % show(x, 6), n.where)
        rep.tri(True if l else (None if opaque(x) else False), "scale-min", "a factor below 0.2 is applied to the level scale (%s)" % show(x, 6), n.where)


def low(t):
    """constants known to be lower bounds of t"""
    if t.op == "max":
        return set().union(*(low(x) for x in t.a))
    if t.op == "min":
        xs = [low(x) for x in t.a]
        fl = []
        for s in xs:
            c = [float(y.a[0]) for y in s if y.op == "float"]
            if not c:
                return set()
            fl.append(max(c))
        return {T("float", str(min(fl)))} if fl else set()
    return {t}


# ------------------------------------------------------------------ C13
@check("C13")
def c13(w, rep):
    rs = roots(w)
    inner = {b.id for b, _, _ in rs}
    n = 0
    todo = [("parallel_insert", "Hnsw", None), ("parallel_insert_slice", "Hnsw", None), ("parallel_insert_data", "Hnsw", "AnnT")]
    for nm, impl, tr in todo:
        b = w.fn(nm, impl_of=impl, trait=tr) if tr is None else w.fn_opt(nm, impl_of=impl, trait=tr)
        if b is None:
            continue
        f = w.flow(b, stop=inner, key="pins")
        cs = [x for x in f.order if x.call is not None and x.call.name.split("::")[-1] in ("insert", "insert_slice", "insert_data") and
              x.call.args and x.call.args[0] is P(1)]
        n += len(cs)
        par_insert(w, rep, b, f, cs)
    rep.count("insertions called by the parallel functions", n, 2)
    adapters(w, rep, "C13")


def par_insert(w, rep, b, f, cs):
    datas = P(2)
    key = b.name
    wh = "%s:%d" % (b.file, b.line)
    for x in f.order:
        if x.call is not None and x.call.name in ("rayon::spawn", "rayon_core::spawn", "thread::spawn", "spawn::spawn"):
            rep.bad("returns:" + key, "%s starts insertions it does not wait for (`%s`)" % (b.spath, x.call.name), x.where)
    if not cs:
        rep.unk("calls:" + key, "no insertion call recognised", wh)
        return
    halves = in_parts(f, cs, datas)
    for c in cs:
        a = c.call.args[1]
        if c.call.name.endswith("insert_data"):
            d, i = c.call.args[1], c.call.args[2]
        else:
            d = agg_get(a, "0") if a.op == "agg" else T("field", a, "0")
            i = agg_get(a, "1") if a.op == "agg" else T("field", a, "1")
        d = strip_copy(d)
        odd = [x for x in f.alts(i) if x is not i and not (x.op == "field" and x.a[1] == "1") and not opaque(x)]
        odd += [x for x in f.alts(d) if x is not d and not (strip_copy(x).op == "field" and strip_copy(x).a[1] == "0") and not opaque(x)]
        if odd:
            rep.bad("pair:" + key, "%s may insert an element with %s in place of its vector or id" % (b.spath, show(odd[0], 5)), c.where)
        elif d.op == "field" and i.op == "field" and d.a[1] == "0" and i.a[1] == "1":
            rep.tri(True if d.a[0] is i.a[0] else (None if opaque(d) or opaque(i) else False), "pair:" + key,
                    "%s inserts the vector of %s under the id of %s" % (b.spath, show(d.a[0], 5), show(i.a[0], 5)), c.where)
            e = d.a[0]
            src = coll_of(e)
            rep.tri(True if src is datas else (None if opaque(src) else False), "source:" + key, "%s inserts elements of %s" % (b.spath, show(src, 5)), c.where)
            cover(w, rep, b, f, c, e, datas, key, halves)
        else:
            rep.tri(None if opaque(d) or opaque(i) else False, "pair:" + key, "%s inserts the vector %s under the id %s" % (b.spath, show(d, 5), show(i, 5)), c.where)


def wh_of(b):
    return "%s:%d" % (b.file, b.line)


def in_parts(f, cs, datas):
    """the slices of datas the calls go through, when they follow one another from the first element to the last"""
    ps = set()
    for c in cs:
        for it, _ in loop_nexts(f, c):
            ps |= {x for x in subterms(it) if x.op == "slice" and x.a[0] is datas}
    at, todo = FALSE, set(ps)
    while todo:
        nx = [x for x in todo if x.a[1] is at]
        if len(nx) != 1:
            return set()
        todo.discard(nx[0])
        at = nx[0].a[2]
    return ps if len(ps) > 1 and at is length(datas) and len(cs) == len(ps) else set()


def cover(w, rep, b, f, c, e, datas, key, halves=()):
    """the call is made exactly once for each element of datas"""
    nx = loop_nexts(f, c)
    if e.op == "index" and e.a[0] is datas:
        lp = loop_over_index(f, c, e.a[1])
        r = level_range(lp[0]) if lp else None
        ok = r is not None and r[0] is FALSE and r[1] is length(datas)
        rep.tri(True if ok else (None if r is None or opaque(r[1]) else False), "all:" + key, "%s inserts the elements of ranks %s only" % (
            b.spath, show(lp[0], 4) if lp else "?"), c.where)
        site = lp[1] if lp else None
    elif e.op == "elem":
        it = next((q for q, z in nx if z == e.a[1]), e.a[0])
        x = it
        part = None
        while x is not datas and x.op in KEEP + FEWER + ("call", "chunks", "elem"):
            if x.op in FEWER and x not in halves:
                part = x
            if x.op == "call":
                break
            x = x.a[0]
        rep.tri(False if part is not None else True if x is datas else None, "all:" + key, "%s inserts only a part of the elements given: %s" % (
            b.spath, show(it, 5)), c.where)
        site = e.a[1]
    else:
        rep.unk("all:" + key, "elements inserted not understood", c.where)
        return
    if site is None:
        return
    sn = node_by_id(f, site)
    ln = length(datas)

    def entered(k, y):
        if k == "node":
            return y is sn
        pol, a = y
        return (pol and a.op == "eq" and ln in a.a and FALSE in a.a) or (not pol and a is lt(FALSE, ln)) or (pol and a is lt(ln, I(1)))
    if halves and any(x in halves for q, _ in nx for x in subterms(q)):
        r = all_paths(f, lambda z: z is sn or any(entered("fact", ft) for ft in z.facts))
        rep.tri(True if r else None, "run:" + key, "whether the two parts are both gone through is not understood", wh_of(b))
    elif not nx or nx[0][1] == site:
        rep.req(all_paths(f, lambda z: z is sn or any(entered("fact", ft) for ft in z.facts)), "run:" + key,
                "%s may return without having considered the elements given" % b.spath, wh_of(b))
    rep.req(once_per(f, c, site), "once:" + key, "%s may insert an element more than once" % b.spath, c.where)
    for ed in turn_edges(f, site):
        ends = {sn} | {z for z in f.order if z.kind == "return" and z.ctx.parent is None}
        r = f.reach([ed], stop=lambda z: z is c)
        rep.req(not (r & ends), "each:" + key, "%s may pass an element without inserting it" % b.spath, ed.where)
