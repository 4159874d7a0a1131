"""C15 construction and readers, C16 drop, C17 iteration, C18 lookups, C19 flattening."""
from . import check
from .common import *
from .norm import *
from .norm import whole as all_of
from .compr import *
from .search import P, names, strip_copy, is_entry, neighbour_aggs
from .insert import insertions, uncast, all_paths, turn_edges, exit_edges, level_of_entry


def strip(t):
    """through copies and casts"""
    while t.op in ("copy", "cast", "tryconv", "chk"):
        t = t.a[0] if t.op in ("copy", "chk") else t.a[-1]
    return t


def getfield(t, path):
    for n in path:
        if t.op != "agg":
            return None
        t = agg_get(t, n)
        if t is None:
            return None
    return t


def self_field(t):
    """field path of self read by t, or None"""
    b, ns = peel_field(strip(t))
    return ns if b is P(1) and ns else None


def verdict(ok, t):
    """True held; False understood and wrong; None not understood"""
    return True if ok else (None if opaque(t) else False)


def only_result(w, rep, name, impl):
    b = w.fn(name, impl_of=impl)
    f = w.flow(b)
    return b, f, f.results()


# ------------------------------------------------------------------ C15
@check("C15")
def c15(w, rep):
    nb = w.fn("new", impl_of="Hnsw")
    f = w.flow(nb)
    wh = "%s:%d" % (nb.file, nb.line)
    built = []
    for p, r in f.results():
        for t in f.alts(r):
            built.append((p, t))
    if not built:
        rep.bad("new:never", "Hnsw::new never returns an index", wh)
    want = {
        "get_ef_construction": ("the construction search width", lambda x: strip(x) is P(4)),
        "get_max_nb_connection": ("the maximum number of connections", lambda x: strip(x) is P(1)),
        "get_max_level": ("the maximum number of layers", lambda x: is_min16(strip(x))),
        "get_distance": ("the distance", lambda x: strip(x) is P(5)),
    }
    for g, (what, ok) in want.items():
        b = w.fn(g, impl_of="Hnsw")
        gf = w.flow(b)
        gw = "%s:%d" % (b.file, b.line)
        for _, r in gf.results():
            path = self_field(r)
            if path is None:
                v = None if opaque(r) and strip(r).op != "bin" else False
                rep.tri(v, "getter:" + g, "%s does not return %s held by the index: it returns %s" % (g, what, show(r, 5)), gw)
                continue
            for p, t in built:
                x = getfield(t, path)
                if x is None:
                    rep.unk("param:" + g, "field %s of the index built by Hnsw::new not readable" % ".".join(path), wh)
                    continue
                alts = f.alts(x)
                v = all(ok(a) for a in alts) or (g == "get_max_level" and clamp_phi(f, x))
                rep.tri(verdict(v, x) if len(alts) < 2 else (True if v else None if any(opaque(a) for a in alts) else False), "param:" + g,
                        "Hnsw::new stores %s where %s reads %s" % (show(x, 5), g, what), wh, "%s is the parameter" % what)
    # refusal of 256 connections or more
    n = 0
    for p, t in built:
        pts = [p] if p is not None else [x for x in f.order if x.kind == "return"]
        for x in pts:
            n += 1

            def small(kind, y):
                if kind != "fact":
                    return False
                pol, a = y
                if a.op != "lt":
                    return False
                if pol and strip(a.a[0]) is P(1) and a.a[1].op == "int":
                    return a.a[1].a[0] <= 256
                if not pol and strip(a.a[1]) is P(1) and a.a[0].op == "int":
                    return a.a[0].a[0] <= 255
                return False
            rep.req(f.holds(x, small), "refuse256", "Hnsw::new returns an index without having tested that the number of connections is less "
                    "than 256: it is stored in one byte in dumps and by get_max_nb_connection", wh, "every return has max_nb_connection < 256")
    rep.count("returns of Hnsw::new", n, 1)
    # readers of the current state
    for nm, impl in (("get_nb_point", "Hnsw"), ("get_nb_point", "PointIndexation")):
        b, gf, rs = only_result(w, rep, nm, impl)
        for _, r in rs:
            x = strip(r)
            ok = x.op == "prot" and x.a[0].op == "guard" and w.lock_class(x.a[0].a[0]) == w.pif["count"]
            rep.tri(verdict(ok, r), "state:%s::%s" % (impl, nm), "%s::%s does not return the current number of points: it returns %s" % (
                impl, nm, show(r, 5)), "%s:%d" % (b.file, b.line), "the counter")
    for impl in ("Hnsw", "PointIndexation"):
        b, gf, rs = only_result(w, rep, "get_max_level_observed", impl)
        for p, r in rs:
            top_level(w, rep, gf, b, p, r)
    b, gf, rs = only_result(w, rep, "get_distance_name", "Hnsw")
    for _, r in rs:
        x = strip(r)
        want = w.prog.ts([t for nm, t, _ in w.hnsw.fields if nm == w.hf["dist"]][0])
        ok = x.op == "type_name" and x.a[0] == want
        rep.tri(True if ok else False if x.op == "type_name" and x.a[0] != "?" or x.op == "str" else None, "state:get_distance_name",
                "get_distance_name does not return the type name of the distance (%s): %s" % (want, show(r, 5)), "%s:%d" % (b.file, b.line))
    # switches
    fields = {}
    for s in ("set_keeping_pruned", "set_extend_candidates", "set_searching_mode"):
        b = w.fn_opt(s, impl_of="Hnsw")
        if b is None:
            raise Missing("Hnsw::" + s)
        sf = w.flow(b)
        st = [(n, pl, v) for n in sf.order for pl, v in n.stores if pl.op == "field" and peel_field(pl)[0] is P(1)]
        good = [x for x in st if x[2] is P(2)]
        key = "set:" + s
        def same(n, v):
            # the flag itself, or the value it is known to have there
            return v is P(2) or v.op == "int" and any(a is P(2) and pol == (v is not FALSE) for pol, a in sf.facts_at(n))
        if len(st) > 1 and len({x[1] for x in st}) == 1 and all(same(x[0], x[2]) for x in st):
            fields.setdefault(tuple(peel_field(st[0][1])[1]), []).append(s)
            rep.req(all_paths(sf, lambda y: any(y is x[0] for x in st)), key, "%s does not set the flag on every path" % s, st[0][0].where)
            continue
        if len(good) == 1 and len(st) == 1:
            fields.setdefault(tuple(peel_field(st[0][1])[1]), []).append(s)
            rep.req(all_paths(sf, lambda y: y is st[0][0]), key, "%s does not set the flag on every path" % s, st[0][0].where)
        else:
            # something else than the flag is stored on a way on which the flag is not known to equal it
            def foreign(q, v):
                if v is P(2) or opaque(v) or any(y is P(2) for y in subterms(v)):
                    return False
                if v.op == "int":
                    return q is not None and not any(any(y is P(2) for y in subterms(a)) for _, a in sf.facts_at(q))
                return True
            other = len(st) == 1 and any(foreign(q, v) for q, v in sf.alts_at(st[0][2]))
            rep.tri(False if other else None if any(opaque(v) for _, _, v in st) else False, key, "%s does not store the flag given into one field: %s" % (
                s, ["%s := %s" % (show(pl), show(v)) for _, pl, v in st]), "%s:%d" % (b.file, b.line))
    for k, v in fields.items():
        rep.req(len(v) == 1, "set:distinct:" + "+".join(sorted(v)), "%s set the same field" % " and ".join(v), "")
    # the construction width is the one used by insertions
    gp = None
    for _, r in w.flow(w.fn("get_ef_construction", impl_of="Hnsw")).results():
        gp = self_field(r)
    if gp:
        for ins in insertions(w):
            used = any(peel_field(x) [1] == gp for n in ins.f.order for _, a in n.facts for x in subterms(a) if x.op == "field")
            rep.req(used, "width:" + ins.f.body.spath if hasattr(ins.f, "body") else "width", "an insertion never compares with the construction search width of the index", "")
            break


def is_min16(x):
    return x.op == "min" and {show(strip(y)) for y in x.a} == {"arg3", "16"}


def clamp_phi(f, x):
    """if P3 > 16 {16} else {P3}"""
    return x.op == "phi" and all(
        (v is I(16) and any(ge16(pol, a, 16) for pol, a in f.facts_at(p))) or
        (strip(v) is P(3) and any(ge16(not pol, a, 17) or ge16(not pol, a, 16) for pol, a in f.facts_at(p))) or is_min16(strip(v))
        for p, v in f.phi_in.get(x, ()) if p is not None)


def ge16(pol, a, k):
    """fact P3 >= k or so"""
    if a.op != "lt":
        return False
    if not pol and strip(a.a[0]) is P(3) and a.a[1].op == "int":
        return a.a[1].a[0] in (16, 17)
    if pol and strip(a.a[1]) is P(3) and a.a[0].op == "int":
        return a.a[0].a[0] in (15, 16)
    return False


def top_level(w, rep, f, b, p, r):
    key = "state:get_max_level_observed:%s" % ("none" if strip(r) is I(0) else "some")
    x = strip(r)
    wh = "%s:%d" % (b.file, b.line)
    if x is I(0):
        def none(kind, y):
            return kind == "fact" and not y[0] and y[1].op == "isok" and is_entry(w, y[1].a[0])
        rep.req(p is None or f.holds_at(p, none, 0), key, "get_max_level_observed returns 0 although there is an entry point", wh)
    elif x.op == "phi":
        rep.unk(key, "value not understood %s" % show(r, 5), wh)
    else:
        base, ns = peel_field(x)
        ok = base.op == "pay" and is_entry(w, base.a[0]) and ns and ns[0] == w.pf["pid"] and ns[-1] == "0"
        rep.tri(verdict(ok, x), key, "get_max_level_observed does not return the level of the entry point: %s" % show(r, 5), wh)


# ------------------------------------------------------------------ C16
@check("C16")
def c16(w, rep):
    b = w.fn("drop", impl_of="PointIndexation", trait="Drop")
    f = w.flow(b)
    wh = "%s:%d" % (b.file, b.line)
    n = 0
    best = None     # (verdict, message)
    for c in f.order:
        if c.call is None or not c.call.args or mname(c) not in ("clear", "truncate", "drain"):
            continue
        owner, whole = links_of(w, c.call.args[0])
        if owner is None:
            continue
        if mname(c) == "truncate" and c.call.args[1] is not I(0):
            continue
        if whole_elem(f, owner) is None:
            continue
        n += 1
        v = covers(w, f, b, c, owner, whole)
        if best is None or rank(v[0]) > rank(best[0]):
            best = v
    # assigning an empty collection is the same
    for c in f.order:
        for pl, val in c.stores:
            if pl.op == "prot" and val.op == "new":
                owner, whole = links_of(w, pl)
                if owner is not None and whole_elem(f, owner) is not None:
                    n += 1
                    v = covers(w, f, b, c, owner, True)
                    if best is None or rank(v[0]) > rank(best[0]):
                        best = v
        if c.call is not None and c.call.name in ("mem::take", "mem::replace") and c.call.args:
            owner, whole = links_of(w, c.call.args[0])
            if owner is not None and whole_elem(f, owner) is not None:
                n += 1
                v = covers(w, f, b, c, owner, whole)
                if best is None or rank(v[0]) > rank(best[0]):
                    best = v
    if best is None:
        und = any(x.call is not None and x.call.name.startswith("?") for x in f.order)
        rep.tri(None if und else False, "clear", "dropping an index never clears the links of its points: the cycles of links keep every "
                "point allocated", wh)
    else:
        rep.tri(best[0], "clear", best[1], wh, "the links of every point of every layer are cleared on every path")
    rep.count("places clearing links in drop", n)


def rank(v):
    return {True: 2, None: 1, False: 0}[v]


def links_of(w, t):
    """(point, the outer list?) when t is the lists of a point or one of them"""
    whole = True
    if t.op in ("index", "elem") and t.a[0].op in ("prot", "slice"):
        whole = False
        t0 = t.a[0]
        t = t0.a[0] if t0.op == "slice" else t0
    if t.op == "prot" and t.a[0].op == "guard":
        lk = t.a[0].a[0]
        if lk.op == "field" and lk.a[1] == w.pf["nb"]:
            return lk.a[0], whole
    return None, None


def covers(w, f, b, c, owner, whole):
    """every point of every layer goes through c: loops over all layers and all their points, no turn avoiding c"""
    loops = loop_nexts(f, c)
    if not whole:
        # inner loop over all the lists of the point
        if not loops:
            return False, "only one of the lists of each point is cleared"
        it, site = loops[-1]
        loops = loops[:-1]
        inner = c.call.args[0]
        full = full_range(f, it, inner.a[0])
        if full is not True:
            return full, "not all lists of a point are cleared: the loop is over %s" % show(it, 5)
        if not all_of(it):
            return False, "not all lists of a point are cleared: the loop is over %s" % show(it, 5)
        bad = skips(f, site, c)
        if bad:
            return False, "a list of a point may be left uncleared (%s)" % bad
        last = node_by_id(f, site)
    else:
        last = c
    # the point: an element of a layer, by a loop over the layer
    seq, lsite, full = whole_elem(f, owner)
    if full is False or (full is None and owner.op == "index"):
        return full, "only the points %s of a layer are visited when dropping" % show(owner.a[1], 5)
    inner = [x for x in loops if x[1] == lsite]
    if not inner:
        return None, "the loop over the points of a layer was not found"
    i = loops.index(inner[0])
    for it, site in loops:
        if never_run(f, site):
            return False, "the closure clearing the links when dropping is given to a lazy iterator that nothing runs"
        if not all_of(it):
            return False, "only a part of the points is visited when dropping: %s" % show(it, 5)
    layer = seq_base(seq)
    if layer is None:
        for x in subterms(seq):
            if x.op in ("filter", "skip", "take", "filtermap", "takewhile", "stepby", "chunk"):
                return False, "only a part of the points is visited when dropping: %s" % show(seq, 5)
        return None, "points visited not understood: %s" % show(seq, 5)
    bad = skips(f, lsite, last)
    if bad:
        return False, "the links of a point may be left uncleared when dropping (%s)" % bad
    # the layer: an element of the layers
    if layer.op == "index":
        layers, idx = layer.a[0], layer.a[1]
        if not is_layers(w, layers):
            return None, "points visited not understood: %s" % show(seq, 5)
        idx = uncast(idx)
        if idx.op != "elem":
            return (None if opaque(idx) else False), "only layer %s is visited when dropping" % show(idx, 4)
        rng = idx.a[0]
        v = layer_range(w, f, rng, layers)
        if v is not True:
            return v, "the layers visited when dropping are %s: points of the others keep their links" % show(rng, 6)
        osite = idx.a[1]
    elif layer.op == "elem":
        layers = seq_base(layer.a[0])
        if layers is None or not is_layers(w, layers):
            for x in subterms(layer.a[0]):
                if x.op in ("filter", "skip", "take", "filtermap", "takewhile", "slice"):
                    return False, "only some layers are visited when dropping: %s" % show(layer.a[0], 5)
            return None, "layers visited not understood: %s" % show(layer.a[0], 5)
        osite = layer.a[1]
    elif is_layers(w, layer):
        return None, "layers visited not understood"
    else:
        return None, "points visited not understood: %s" % show(seq, 5)
    if osite != lsite:
        bad = skips(f, osite, node_by_id(f, lsite))
        if bad:
            return False, "a layer may be left out when dropping (%s)" % bad
    s = node_by_id(f, osite)
    if s is not None and not all_paths(f, lambda x: x is s):
        return False, "some path of drop does not visit the layers"
    return True, ""


def seq_base(t):
    while True:
        if t.op in ("copy", "rev", "enum", "sorted"):
            t = t.a[0]
        elif t.op == "coll" and t.a[0].op not in ("filter", "skip", "take"):
            t = t.a[0]
        else:
            break
    return t if t.op in ("index", "elem", "prot") else None


def is_layers(w, t):
    return t.op == "prot" and t.a[0].op == "guard" and w.lock_class(t.a[0].a[0]) == w.pif["layers"]


def full_range(f, it, base):
    """the loop goes through all indices of base (or base itself)"""
    if it is base or seq_base(it) is base:
        return True
    it2 = it
    while it2.op == "rev":
        it2 = it2.a[0]
    if it2.op == "agg" and it2.a[0] == "Range":
        lo, hi = agg_get(it2, "start"), agg_get(it2, "end")
        same = hi is length(base) or (hi.op == "len" and same_lock(hi.a[0], base))
        if not same and (hi.op == "min" and any(x.op == "int" and x.a[0] < 16 for x in hi.a) or hi.op in ("bin", "satsub") and lo is I(0)):
            return False
        return (True if lo is I(0) and same else (None if opaque(it2) else False))
    return None


def same_lock(a, b):
    """two reads of the same protected value"""
    return a.op == "prot" and b.op == "prot" and a.a[0].op == "guard" and b.a[0].op == "guard" and a.a[0].a[0] is b.a[0].a[0]


def layer_range(w, f, rng, layers):
    while rng.op == "rev":
        rng = rng.a[0]
    if rng.op != "agg":
        return True if seq_base(rng) is layers else None
    if rng.a[0] == "Range":
        lo, hi, inc = agg_get(rng, "start"), agg_get(rng, "end"), False
    elif rng.a[0] == "RangeInclusive":
        lo, hi, inc = agg_get(rng, "start"), agg_get(rng, "end"), True
    else:
        return None
    if lo is None or hi is None:
        return None
    if uncast(lo) is not I(0):
        return None if opaque(lo) else False
    hi = uncast(hi)
    if not inc and hi.op == "len" and same_lock(hi.a[0], layers):
        return True
    if not inc and hi.op == "field" and hi.a[1] == "max_layer":
        return True
    if hi.op == "bin" and hi.a[0] == "Add" and I(1) in hi.a and not inc:
        hi = uncast([x for x in hi.a[1:] if x is not I(1)][0])
        inc = True
    if not inc and hi.op == "phi":
        # phi of level + 1
        pass
    v = level_top(w, f, hi)
    if v is True:
        return True if inc else False
    return v


def level_top(w, f, t):
    """t is at least the level of the entry point (0 when there is none)"""
    res = True
    for p, v in (f.phi_in[t] if t.op == "phi" and t in f.phi_in else [(None, t)]):
        x = uncast(v)
        if x is I(0):
            ok = p is not None and any((not pol) and a.op == "isok" and is_entry(w, a.a[0]) for pol, a in f.facts_at(p))
            if not ok:
                res = False
            continue
        base, ns = peel_field(x)
        if base.op == "pay" and is_entry(w, base.a[0]) and ns[:1] == [w.pf["pid"]] and ns[-1] == "0":
            continue
        if opaque(x):
            return None
        res = False
    return res


def skips(f, site, target):
    """a turn of the loop at `site` that does not pass target, or leaves the loop early"""
    s = node_by_id(f, site)
    if target is None or s is None:
        return None
    for e in turn_edges(f, site):
        if target is not e:
            seen = f.reach(e.succ, stop=lambda z: z is target)
            if s in seen:
                return "a turn of the loop at %s can avoid it" % s.where
        out = f.reach([e], stop=lambda z: z is s)
        if any(z.kind == "return" and z.ctx.parent is None for z in out):
            return "the loop at %s can be left before its end" % s.where
    return None


def whole_elem(f, t):
    """(sequence, site of the loop, every element is visited?) when t is the element of a loop"""
    if t.op == "elem":
        return t.a[0], t.a[1], None
    if t.op == "index" and uncast(t.a[1]).op == "elem":
        i = uncast(t.a[1])
        return t.a[0], i.a[1], full_range(f, i.a[0], t.a[0])
    return None


# ------------------------------------------------------------------ C17
@check("C17")
def c17(w, rep):
    n = 0
    n += machine(w, rep, "IterPoint", False)
    n += machine(w, rep, "IterPointLayer", True)
    rep.count("iterator results analysed", n, 4)
    starts(w, rep)


def leaf_fields(f, t, depth=0):
    """fields of the iterator a counter is read from"""
    out = set()
    for x in f.alts(uncast(t)):
        x = uncast(x)
        b, ns = peel_field(x)
        if b is P(1) and len(ns) == 1:
            out.add(ns[0])
        elif x.op == "bin" and depth < 4:
            for y in x.a[1:]:
                out |= leaf_fields(f, y, depth + 1)
    return out


def last_stores(f, p, field):
    """values the field may hold at node p: [(store node, value)], None in the list when it may be unchanged since the entry"""
    out = []
    seen = set()
    st = [p]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        hit = [v for pl, v in n.stores if pl.op == "field" and pl.a[1] == field and pl.a[0] is P(1)]
        if hit:
            out.append((n, hit[-1]))
            continue
        if not n.pred:
            out.append((None, None))
        st.extend(n.pred)
    return out


def plus1(v, x):
    v, x = uncast(v), uncast(x)
    if v.op == "bin" and v.a[0] == "Add":
        xs = [uncast(y) for y in v.a[1:]]
        return I(1) in xs and any(y is x for y in xs)
    return v.op == "int" and x.op == "int" and v.a[0] == x.a[0] + 1


def machine(w, rep, tname, fixed):
    b = w.fn("next", impl_of=tname, trait="Iterator")
    f = w.flow(b)
    wh = "%s:%d" % (b.file, b.line)
    key = tname + "::next:"
    yields, nones = [], []
    for p, r in f.results():
        if r.op == "agg" and r.a[1] and "Option::Some" in str(r.a[0]) or (r.op == "agg" and "Some" in str(r.a[0])):
            yields.append((p, strip_copy(r.a[-1])))
        elif r.op == "agg" and "None" in str(r.a[0]):
            nones.append((p, r))
        else:
            rep.unk(key + "result", "result not understood: %s" % show(r, 6), wh)
            return 1
    if not yields:
        rep.bad(key + "yield", "the iterator never yields a point", wh)
        return 1
    if not nones:
        rep.bad(key + "end", "the iterator never ends", wh)
    states = []
    for p, x in yields:
        while x.op in ("copy", "ref"):
            x = x.a[0]
        if not (x.op == "index" and x.a[0].op == "index"):
            rep.tri(None, key + "yield", "the point yielded is not read as layers[l][s]: %s" % show(x, 6), wh)
            return 1
        G, L, S = x.a[0].a[0], x.a[0].a[1], x.a[1]
        gb, gn = peel_field(G)
        if gb is not P(1):
            # iterating over something else than the guard kept by the iterator: look at it
            rep.tri(True if is_layers(w, G) else None, key + "source", "the points yielded do not come from the layers: %s" % show(G, 5), wh)
        ls, ss = leaf_fields(f, L), leaf_fields(f, S)
        if len(ls) != 1 or len(ss) != 1 or ls == ss:
            if not opaque(L) and not opaque(S):
                rep.bad(key + "yield", "the point yielded, layers[%s][%s], is not designated by the position of the iterator" % (show(L, 4), show(S, 4)), wh)
            else:
                rep.unk(key + "yield", "position not understood: layers[%s][%s]" % (show(L, 4), show(S, 4)), wh)
            return 1
        lf, sf = ls.pop(), ss.pop()
        states.append((G, L, S, lf, sf))
        for m, ty, v in cut_casts(f, lambda z: sf in leaf_fields(f, z), 2) + (cut_casts(f, lambda z: lf in leaf_fields(f, z), 4) if fixed else []):
            rep.bad(key + "position", "the position of %s, %s, is cut to the type %s: some points are yielded again" % (tname, show(v, 4), ty), m.where)
        node = p if p is not None else f.exit
        # bounds

        def inb(kind, y, i, seq):
            return kind == "fact" and y[0] and y[1].op == "lt" and uncast(y[1].a[0]) is uncast(i) and y[1].a[1] is length(seq)
        okb = shown(f, node, lambda k, y: inb(k, y, S, x.a[0]), p is not None)
        if not okb and tested_otherwise(f, node, S, x.a[0]):
            okb = None
        def inl(kind, y):
            return kind == "fact" and y[0] and y[1].op == "lt" and uncast(y[1].a[0]) is uncast(L) and y[1].a[1] is length(G)
        okl = f.holds_at(node, inl, 0) if p is not None else f.holds(node, inl)
        if not okl and (tested_otherwise(f, node, L, G) or fixed and layer_tested_before(w)):
            okl = None
        rep.tri(okl, key + "range", "%s reads layer l without having tested that it exists: panic instead of ending" % tname, wh, "l is tested")
        rep.tri(okb, key + "slot", "%s yields layers[l][s] without having tested s < length of the layer" % tname, wh, "s is tested")
        # advance
        adv = last_stores(f, node, sf)
        good = [v is not None and plus1(v, S) for _, v in adv]
        # the slot stored can also be the position read itself when the increment is done before the read
        good = [g or (v is not None and uncast(S).op == "bin" and uncast(v) is uncast(S)) for g, (_, v) in zip(good, adv)]
        rep.tri(True if all(good) else (None if any(v is not None and opaque_x(f, v) for _, v in adv) else False), key + "advance",
                "%s yields the point at slot %s but leaves its position at %s: a point is repeated or skipped" % (
                    tname, show(S, 4), ", ".join(show(v, 4) if v is not None else "the same slot" for _, v in adv)), wh, "slot := slot + 1 on every yield")
        lay = last_stores(f, node, lf)
        okl = [v is None or uncast(v) is uncast(L) or carried(f, L, v) for _, v in lay]
        rep.tri(True if all(okl) else (None if any(v is not None and opaque_x(f, v) for _, v in lay) else False), key + "stay",
                "%s yields a point of layer %s and leaves its layer at %s" % (tname, show(L, 4), [show(v, 4) for _, v in lay if v is not None]), wh,
                "the layer is that of the point yielded")
    G, L, S, lf, sf = states[0]
    # end
    for p, r in nones:
        def ended(kind, y):
            if kind != "fact" or y[1].op not in ("lt", "eq", "isok"):
                return False
            pol, a = y
            if a.op == "lt" and not pol and uncast(a.a[0]) is uncast(L) and a.a[1] is length(G):
                return True
            if a.op == "eq" and pol and {uncast(z) for z in a.a} == {uncast(L), length(G)}:
                return True
            if fixed and a.op == "lt" and not pol and uncast(a.a[0]) is uncast(S) and a.a[1].op == "len":
                return True
            if fixed and a.op == "isok" and not pol and a.a[0].op == "get":
                return True
            if a.op == "lt" and not pol and a.a[1] is length(G) and carries(f, a.a[0], lf) and not shifted(a.a[0]):
                return True
            return False

        def shifted(t):
            """computed from the position, and not the position kept"""
            t = uncast(t)
            return t.op == "bin" and not any(pl.op == "field" and pl.a[1] == lf and uncast(v) is t for y in f.order for pl, v in y.stores)

        def going(kind, y):
            """known to stand on a layer that exists (and, for an iterator over one layer, on one of its points)"""
            if kind != "fact":
                return False
            pol, a = y
            return pol and a.op == "lt" and (uncast(a.a[0]) is uncast(S) and a.a[1].op == "len" and a.a[1].a[0].op == "index" if fixed else
                                             uncast(a.a[0]) is uncast(L) and a.a[1] is length(G))

        def early(kind, y):
            return kind == "fact" and not y[0] and y[1].op == "lt" and y[1].a[1] is length(G) and shifted(y[1].a[0])
        node = p if p is not None else f.exit
        at = lambda q: f.holds_at(node, q, 0) if p is not None else f.holds(node, q)
        ok = at(ended)
        if not ok and not at(going) and not at(early) and (tested_otherwise(f, node, L, G) or (fixed and tested_otherwise(f, node, S, None))):
            ok = None
        rep.tri(ok, key + "end", "%s can end while %s" % (tname, "its layer still has points" if fixed else "some layer still has points"), wh,
                "None only past the last %s" % ("point" if fixed else "layer"))
    # moves
    for n in f.order:
        for pl, v in n.stores:
            if pl.op != "field" or pl.a[0] is not P(1):
                continue
            if pl.a[1] == lf:
                if fixed:
                    rep.bad(key + "layer", "an iterator over one layer changes its layer to %s" % show(v, 4), n.where)
                    continue
                move(w, rep, f, key, tname, n, v, G, L, S, lf, sf)
            elif pl.a[1] == sf:
                x = uncast(v)
                if x is I(0):
                    # only on a change of layer or at the beginning
                    def may(kind, y):
                        if kind != "fact":
                            return False
                        pol, a = y
                        return (not pol and a.op == "lt" and a.a[1].op == "len" and a.a[1].a[0].op == "index") or \
                            (pol and a.op in ("eq", "lt") and any(leaf_fields(f, z) & {lf, sf} for z in a.a)) or (not pol and a.op == "isok")
                    rep.req(f.holds(n, may), key + "restart", "%s restarts at slot 0 without having found the layer exhausted: points are repeated" %
                            tname, n.where, "slot 0 only for a new layer")
                elif x.op == "bin" and x.a[0] == "Add" and leaf_fields(f, x) == {sf}:
                    # advanced without yielding: a point is skipped
                    nodes = {p if p is not None else f.exit for p, _ in yields}
                    out = f.reach(n.succ, stop=lambda z: z in nodes)
                    again = any(u is not n and any(q.op == "field" and q.a[1] == sf for q, _ in u.stores) for u in out if u not in nodes)
                    ends = {p for p, _ in nones}
                    if n in out or any(e in out for e in ends if e is not None):
                        rep.bad(key + "skip", "%s can advance its slot without yielding the point: points are skipped" % tname, n.where)
    return len(yields) + len(nones)


def layer_tested_before(w):
    """the iterator over one layer is made only after a test of the layer"""
    b = w.fn("get_layer_iterator", impl_of="PointIndexation")
    f = w.flow(b)
    return any(a.op == "lt" and P(2) in [uncast(z) for z in a.a] for n in f.order for _, a in n.facts)


def opaque_x(f, v):
    for x in f.alts(v):
        for y in subterms(x):
            if y.op in ("call", "undef", "unk", "other", "?"):
                return True
    return False


def tested_otherwise(f, node, i, seq):
    """a comparison of the position with something not read as the length expected"""
    for pol, a in f.facts_at(node):
        if a.op in ("lt", "eq"):
            xs = [uncast(z) for z in a.a if isinstance(z, Term)]
            if uncast(i) in xs or any(uncast(i) in list(subterms(z)) for z in xs):
                o = [z for z in xs if z is not uncast(i)]
                if any(z.op == "phi" or opaque(z) or (z.op in ("bin", "min", "max") and any(y.op == "len" for y in subterms(z))) for z in o):
                    return True
                if a.op == "eq" and seq is not None and not pol and any(z is length(seq) for z in o):
                    return True
    return False


def carried(f, L, v):
    """L is a phi one of whose inputs is the value stored"""
    return uncast(v) in [uncast(x) for x in f.alts(uncast(L))]


def carries(f, t, field):
    return field in leaf_fields(f, t)


def move(w, rep, f, key, tname, n, v, G, L, S, lf, sf):
    x = uncast(v)
    if x is I(0):
        def first(kind, y):
            return kind == "fact" and y[0] and y[1].op in ("eq", "lt") and any(peel_field(uncast(z)) == (P(1), [lf]) for z in y[1].a)
        rep.req(f.holds(n, first), key + "begin", "%s goes back to layer 0 at any time" % tname, n.where, "layer 0 only at the beginning")
        zero_slot(rep, f, key, tname, n, sf)
        return
    if x.op == "bin" and x.a[0] == "Add" and I(1) in x.a and carries(f, x, lf):
        base = [y for y in x.a[1:] if y is not I(1)][0]

        def exhausted(kind, y):
            if kind != "fact":
                return False
            pol, a = y
            if a.op == "lt" and not pol and a.a[1].op == "len" and a.a[1].a[0].op == "index" and carries(f, a.a[1].a[0].a[1], lf):
                return leaf_fields(f, a.a[0]) == {sf}
            if a.op == "isok" and not pol and a.a[0].op == "get":
                return True
            return False
        rep.req(f.holds(n, exhausted), key + "next-layer", "%s goes to the next layer without having found the layer exhausted: points are "
                "skipped" % tname, n.where, "next layer only when the slot is past the end")
        zero_slot(rep, f, key, tname, n, sf)
        return
    rep.tri(None if opaque_x(f, v) else False, key + "move", "%s changes its layer to %s" % (tname, show(v, 5)), n.where)


def zero_slot(rep, f, key, tname, n, sf):
    """the slot is set to 0 together with the change of layer"""
    def z(y):
        return any(pl.op == "field" and pl.a[1] == sf and uncast(v) is I(0) for pl, v in y.stores)
    here = z(n)
    before = False
    if not here:
        # just before: dominated by a store of 0 with no other store of the slot in between, or on every way after, before the next test
        ls = last_stores(f, n, sf)
        before = all(v is not None and uncast(v) is I(0) for _, v in ls)
        if not before:
            after = f.reach(n.succ, stop=z)
            before = not any(y.kind == "return" or any(a.op in ("lt", "isok") and any(s.op == "len" or s.op == "get" for s in subterms(a)) and carries_any(f, a, sf)
                                                       for _, a in y.facts) for y in after if not z(y))
    rep.req(here or before, key + "zero", "%s changes layer without going back to slot 0: the first points of the layer are skipped" % tname,
            n.where, "slot 0 with the new layer")


def carries_any(f, a, field):
    return any(field in leaf_fields(f, z) for z in a.a if isinstance(z, Term))


def starts(w, rep):
    """initial states"""
    for b, tname, p2 in ((w.fn_opt("new", impl_of="IterPoint"), "IterPoint", None), (w.fn("into_iter", impl_of="PointIndexation", trait="IntoIterator"), "IterPoint", None),
                         (w.fn_opt("new", impl_of="IterPointLayer"), "IterPointLayer", P(2)),
                         (w.fn("get_layer_iterator", impl_of="PointIndexation"), "IterPointLayer", P(2))):
        if b is None:
            continue
        f = w.flow(b)
        wh = "%s:%d" % (b.file, b.line)
        nx = w.flow(w.fn("next", impl_of=tname, trait="Iterator"))
        lf = sf = None
        for p, r in nx.results():
            if r.op == "agg" and "Some" in str(r.a[0]):
                x = strip_copy(r.a[-1])
                if x.op == "index" and x.a[0].op == "index":
                    a, c = leaf_fields(nx, x.a[0].a[1]), leaf_fields(nx, x.a[1])
                    if len(a) == 1 and len(c) == 1:
                        lf, sf = a.pop(), c.pop()
        for _, r in f.results():
            key = "start:" + b.spath
            if lf is None or r.op != "agg" or agg_get(r, lf) is None:
                rep.unk(key, "initial state not understood: %s" % show(r, 4), wh)
                continue
            for m, ty, v in cut_casts(f, lambda z: z is p2, 4) if p2 is not None else ():
                rep.bad(key + ":layer", "the layer asked is cut to the type %s in %s: another layer is iterated over" % (ty, b.spath), m.where)
            l0, s0 = uncast(agg_get(r, lf)), uncast(agg_get(r, sf))
            if p2 is not None and agg_get(r, lf).op == "cast" and str(agg_get(r, lf).a[0]) in ("u8", "i8", "u16", "i16", "u32", "i32"):
                rep.bad(key + ":layer", "the layer asked is cut to the type %s in %s: another layer is iterated over" % (agg_get(r, lf).a[0], b.spath), wh)
            gs = [v for v in r.a[2:] if isinstance(v, Term) and v.op == "guard"]
            if gs:
                rep.req(any(w.lock_class(g.a[0]) == w.pif["layers"] and peel_field(g.a[0])[0] is P(1) for g in gs), key + ":layers",
                        "%s does not iterate over the layers of the index" % b.spath, wh, "guard on the layers")
            if p2 is not None:
                rep.tri(verdict(l0 is p2, l0), key + ":layer", "%s iterates over layer %s instead of the layer asked" % (b.spath, show(l0, 4)), wh, "the layer asked")
                rep.tri(verdict(s0 is I(0), s0), key + ":slot", "%s begins at slot %s" % (b.spath, show(s0, 4)), wh, "slot 0")
                continue
            init = [n for n in nx.order for pl, v in n.stores if pl.op == "field" and pl.a[1] == lf and uncast(v) is I(0)]
            if l0 is I(0) and s0 is I(0):
                rep.ok(key, wh, "starts at layer 0, slot 0")
            elif l0.op == "int" and l0.a[0] < 0:
                conds = []
                for n in init:
                    for d in nx.doms(n):
                        conds += [a for pol, a in d.facts if pol and a.op in ("eq", "lt")]
                hit = any(l0 in [uncast(z) for z in a.a] and a.op == "eq" or a.op == "lt" for a in conds)
                rep.req(bool(init) and hit, key, "%s starts in state (%s, %s), which next() does not turn into the first slot of layer 0" % (
                    b.spath, show(l0), show(s0)), wh, "next() turns the initial state into layer 0, slot 0")
            else:
                rep.tri(None if opaque(l0) or opaque(s0) else False, key, "%s starts at layer %s, slot %s: points are skipped" % (b.spath, show(l0), show(s0)), wh)


# ------------------------------------------------------------------ C18
PIDL = T("field", P(2), "0")
PIDR = T("field", P(2), "1")


def unint(t):
    """through casts and checked conversions of an integer"""
    while True:
        if t.op == "pay" and t.a[0].op == "tryconv":
            t = t.a[0].a[1]
        elif t.op in ("cast", "tryconv"):
            t = t.a[-1]
        elif t.op == "chk":
            t = t.a[0]
        elif t.op == "unwrap_or" and t.a[0].op == "tryconv":
            t = t.a[0].a[1]
        else:
            return t


def all_layers(w, t):
    return is_layers(w, t) and peel_field(t.a[0].a[0])[0] is P(1)


def count_of(w, f, t, lvl):
    """t is the number of points of layer lvl (0 for a layer out of range): True, False, None"""
    for p, x in (f.phi_in.get(t) or [(None, t)]) if t.op == "phi" else [(None, t)]:
        if x.op == "phi":
            r = count_of(w, f, x, lvl)
            if r is not True:
                return r
            continue
        if x is I(0):
            continue
        if x.op == "len" and x.a[0].op == "index" and all_layers(w, x.a[0].a[0]) and unint(x.a[0].a[1]) is lvl:
            continue
        return None if unreadable(f, x) else False
    return True


def unreadable(f, t):
    for x in f.alts(t):
        for y in subterms(x):
            if y.op in ("call", "undef", "unk", "other", "?", "cparam", "init"):
                return True
            if y.op == "phi" and y is not t and not resolvable(f, y):
                return True
    return False


def rank_test(w, f, a, pol):
    """fact: rank within the layer (True) / past its end (False) / None for something else"""
    if a.op == "lt" and unint(a.a[0]) is PIDR and a.a[1].op in ("len", "phi"):
        c = count_of(w, f, a.a[1], PIDL)
        if c is True:
            return pol
    if a.op == "eq" and {unint(z) is PIDR for z in a.a} == {True, False}:
        return None
    if a.op == "isok" and a.a[0].op == "get" and unint(a.a[0].a[1]) is PIDR:
        return pol
    return None


def level_test(w, f, a, pol):
    if a.op == "lt":
        x, y = unint(a.a[0]), unint(a.a[1])
        if x is PIDL:
            if a.a[1].op == "len" and all_layers(w, a.a[1].a[0]):
                return pol
            if y.op == "bin" and y.a[0] == "Add" and I(1) in y.a and any(z is not I(1) and level_top(w, f, z) is True for z in y.a[1:]):
                return pol
            if level_top(w, f, a.a[1]) is True:
                return None if not pol else True        # l < top : l is a layer; not (l < top) says nothing
        if y is PIDL and level_top(w, f, a.a[0]) is True:
            return not pol
        if y is PIDL and x.op == "bin" and x.a[0] == "Sub" and any(z.op == "len" and all_layers(w, z.a[0]) for z in x.a[1:]):
            return not pol
        if x is PIDL and y.op == "field" and y.a[1] == "max_layer":
            return pol
        if y is PIDL and x.op == "field" and x.a[1] == "max_layer":
            return None if pol else None
    if a.op == "isok" and a.a[0].op == "get" and unint(a.a[0].a[1]) is PIDL:
        return pol
    return None


def neg_test(a, pol):
    if a.op == "lt" and unint(a.a[0]) is PIDR and a.a[1] is I(0):
        return pol
    if a.op == "lt" and unint(a.a[1]) is PIDR and a.a[0].op == "int" and a.a[0].a[0] == -1:
        return not pol
    if a.op == "isok" and a.a[0].op == "tryconv" and unint(a.a[0]) is PIDR:
        return not pol
    return None


@check("C18")
def c18(w, rep):
    n = 0
    for nm in ("get_point_data", "get_point"):
        b = w.fn(nm, impl_of="PointIndexation") if nm == "get_point_data" else w.fn_opt(nm, impl_of="PointIndexation")
        if b is None:
            continue
        n += lookup(w, rep, b, nm == "get_point_data")
    rep.count("results of lookups analysed", n, 2)
    layer_count(w, rep)
    dimension(w, rep)
    accessors(w, rep)


def ways(f, node):
    """the last conditions met on the ways to a node (the entry when there is none)"""
    seen, out, st = set(), [], [node]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.facts or not n.pred:
            out.append(n)
        else:
            st.extend(n.pred)
    return out


def lookup(w, rep, b, data):
    f = w.flow(b)
    wh = "%s:%d" % (b.file, b.line)
    key = b.name + ":"
    n = 0
    nsome = 0
    for m, ty, v in cut_casts(f, lambda z: unint(z) is PIDR, 2):
        rep.bad(key + "rank", "%s cuts the rank asked to the type %s" % (b.spath, ty), m.where)
    for p, r in f.results():
        for r1 in f.alts(r):
            n += 1
            node = p if p is not None else f.exit
            if r1.op == "agg" and "None" in str(r1.a[0]):
                def why(kind, y):
                    if kind != "fact":
                        return False
                    pol, a = y
                    return neg_test(a, pol) is True or level_test(w, f, a, pol) is False or rank_test(w, f, a, pol) is False
                ok = f.holds_at(node, why, 0) if p is not None else f.holds(node, why)
                def off(kind, y):
                    """the id is compared with its bound moved: the last layer, or the last point, is refused"""
                    if kind != "fact" or y[1].op != "lt":
                        return False
                    pol, a = y
                    x, z = a.a if not pol else a.a[::-1]
                    u = unint(z)
                    if u.op == "bin" and I(1) in u.a and u.a[0] == ("Sub" if pol else "Add") or u.op == "satsub" and pol:
                        return False        # x >= z + 1, x > z - 1
                    return unint(x) is PIDL and arith(z) and any(level_top(w, f, u) is True for u in list(z.a) if isinstance(u, Term)) or \
                        unint(x) is PIDL and not pol and level_top(w, f, z) is True or \
                        arith(unint(x)) and any(unint(u) is PIDR for u in subterms(x)) and count_of(w, f, z, PIDL) is True or \
                        unint(x) is PIDR and arith(z) and any(count_of(w, f, u, PIDL) is True for u in list(z.a) if isinstance(u, Term))
                if not ok:
                    ok = None
                    for z in ways(f, node):
                        if any(why("fact", y) for y in z.facts) or f.holds(z, why):
                            continue
                        known = [y for d in [z] + f.doms(z) for y in d.facts]
                        if any(off("fact", y) for y in z.facts):
                            ok = False
                        elif not any(unreadable(f, u) for _, a in known for u in a.a if isinstance(u, Term)) and \
                                not any(u.op == "len" or u.op == "phi" for _, a in z.facts for u in subterms(a)):
                            ok = False
                rep.tri(ok, key + "none", "%s answers nothing for an internal id of a stored point: under %s" % (
                    b.spath, [("" if pol else "not ") + show(a, 5) for pol, a in f.facts_at(node)]), wh, "nothing only for an id out of range")
                continue
            if r1.op == "agg" and "Some" in str(r1.a[0]):
                nsome += 1
                v = r1.a[-1]
                x = strip_copy(v)
                ok = is_slot_data(w, x) if data else (x.op == "index" and x.a[0].op == "index")
                idx = None
                for y in subterms(x):
                    if y.op == "index" and y.a[0].op == "index" and all_layers(w, y.a[0].a[0]):
                        idx = y
                if idx is None:
                    rep.tri(None if unreadable(f, x) else False, key + "value", "%s does not answer with the content of layers[layer][rank]: %s" % (
                        b.spath, show(v, 6)), wh)
                    continue
                L, S = unint(idx.a[0].a[1]), unint(idx.a[1])
                good = L is PIDL and S is PIDR and ok
                rep.tri(True if good else (None if unreadable(f, x) else False), key + "value", "%s answers with %s instead of %s layers[id.0][id.1]" % (
                    b.spath, show(v, 6), "the vector of" if data else ""), wh, "layers[id.0][id.1]")
                if not (L is PIDL and S is PIDR):
                    continue

                def inrank(kind, y):
                    return kind == "fact" and rank_test(w, f, y[1], y[0]) is True
                def inlevel(kind, y):
                    if kind != "fact":
                        return False
                    if level_test(w, f, y[1], y[0]) is True:
                        return True
                    pol, a = y      # rank < count where count is 0 for a layer out of range
                    return pol and a.op == "lt" and unint(a.a[0]) is PIDR and a.a[1].op == "phi" and count_of(w, f, a.a[1], PIDL) is True
                def notneg(kind, y):
                    if kind != "fact":
                        return False
                    if neg_test(y[1], y[0]) is False:
                        return True
                    return y[0] and y[1].op == "isok" and y[1].a[0].op == "tryconv" or wraps(y)
                def wraps(y):
                    # a negative rank cast to usize is far past the end
                    pol, a = y
                    return pol and a.op == "lt" and a.a[0].op == "cast" and unint(a.a[0]) is PIDR and "usize" in str(a.a[0].a[0])
                hold = lambda q: f.holds_at(node, q, 0) if p is not None else f.holds(node, q)
                vague = any(unreadable(f, z) for _, a in f.facts_at(node) for z in a.a if isinstance(z, Term))
                rep.tri(True if hold(inrank) else (None if vague else False), key + "rank", "%s reads layers[layer][rank] without having tested the "
                        "rank against the number of points of that layer: panic or wrong point" % b.spath, wh, "rank tested")
                rep.tri(True if hold(inlevel) else (None if vague else False), key + "level", "%s reads layers[layer] without having tested the "
                        "layer: panic on an id out of range" % b.spath, wh, "layer tested")
                rep.tri(True if hold(notneg) else (None if vague else False), key + "negative", "%s does not refuse a negative rank" % b.spath, wh,
                        "negative rank refused")
                continue
            rep.unk(key + "result", "result not understood %s" % show(r1, 6), wh)
    if nsome == 0:
        und = any(r.op != "agg" for _, r in f.results())
        rep.tri(None if und else False, key + "never", "%s never answers with a point" % b.spath, wh)
    return n


def is_slot_data(w, x):
    return x.op in ("field", "get_v") and any(y.op == "field" and y.a[1] == w.pf["data"] and y.a[0].op == "index" for y in [x] + list(subterms(x)))


def layer_count(w, rep):
    b = w.fn("get_layer_nb_point", impl_of="PointIndexation")
    f = w.flow(b)
    wh = "%s:%d" % (b.file, b.line)
    for m, ty, v in cut_casts(f, lambda z: z is P(2), 4):
        rep.bad("layer_count:value", "get_layer_nb_point cuts the layer asked to the type %s" % ty, m.where)
    for p, r in f.results():
        node = p if p is not None else f.exit

        def inr(kind, y):
            return kind == "fact" and y[0] and y[1].op == "lt" and unint(y[1].a[0]) is P(2) and y[1].a[1].op == "len" and all_layers(w, y[1].a[1].a[0]) or \
                kind == "fact" and y[0] and y[1].op == "isok" and y[1].a[0].op == "get" and unint(y[1].a[0].a[1]) is P(2)

        def out(kind, y):
            return kind == "fact" and not y[0] and y[1].op == "lt" and unint(y[1].a[0]) is P(2) and y[1].a[1].op == "len" and all_layers(w, y[1].a[1].a[0]) or \
                kind == "fact" and not y[0] and y[1].op == "isok" and y[1].a[0].op == "get"
        hold = lambda q: f.holds_at(node, q, 0) if p is not None else f.holds(node, q)
        if r is I(0):
            v = hold(out)
            if not v and (not f.facts_at(node) or any(unreadable(f, z) for _, a in f.facts_at(node) for z in a.a if isinstance(z, Term))):
                v = None
            rep.tri(v, "layer_count:zero", "get_layer_nb_point answers 0 for an existing layer", wh, "0 only for a layer out of range")
            continue
        c = r.op == "len" and r.a[0].op == "index" and all_layers(w, r.a[0].a[0]) and unint(r.a[0].a[1]) is P(2)
        rep.tri(True if c else (None if unreadable(f, r) else False), "layer_count:value", "get_layer_nb_point answers %s instead of the number of points of the layer" %
                show(r, 5), wh, "length of the layer")
        if c:
            rep.req(hold(inr), "layer_count:range", "get_layer_nb_point reads a layer without having tested that it exists: panic on a layer out of range", wh,
                    "layer tested")


def dimension(w, rep):
    b = w.fn("get_data_dimension", impl_of="PointIndexation")
    f = w.flow(b)
    wh = "%s:%d" % (b.file, b.line)
    for p, r in f.results():
        node = p if p is not None else f.exit
        if r is I(0):
            ok = any((not pol) and a.op == "isok" for pol, a in f.facts_at(node)) or p is None
            rep.req(ok, "dimension:zero", "get_data_dimension answers 0 for an index that is not empty", wh)
            continue
        ok = r.op == "len" and any(y.op == "field" and y.a[1] == w.pf["data"] for y in subterms(r)) and any(is_entry(w, y) or is_layers(w, y) for y in subterms(r))
        rep.tri(True if ok else (None if unreadable(f, r) else False), "dimension:value", "get_data_dimension answers %s instead of the length of the stored vectors" %
                show(r, 5), wh, "length of a stored vector")


def accessors(w, rep):
    """public accessors read the field they announce"""
    for nm, impl, role in (("get_origin_id", "Point", w.pf["id"]), ("get_point_id", "Point", w.pf["pid"]), ("get_origin_id", "Neighbour", w.nf["id"]),
                           ("get_distance", "Neighbour", w.nf["d"])):
        b = w.fn(nm, impl_of=impl)
        f = w.flow(b)
        for _, r in f.results():
            ok = peel_field(strip(r)) == (P(1), [role])
            rep.tri(verdict(ok, r), "accessor:%s::%s" % (impl, nm), "%s::%s returns %s" % (impl, nm, show(r, 5)), "%s:%d" % (b.file, b.line), "field " + role)
    b = w.fn("get_v", impl_of="Point")
    f = w.flow(b)
    for _, r in f.results():
        for x in f.alts(r):
            ok = any(y.op == "field" and y.a[1] == w.pf["data"] and y.a[0] is P(1) for y in [x] + list(subterms(x))) and x.op in ("field",)
            rep.tri(verdict(ok, x), "accessor:Point::get_v", "Point::get_v returns %s" % show(r, 5), "%s:%d" % (b.file, b.line), "the stored vector")
    b = w.fn("get_neighborhood_id", impl_of="Point")
    neigh_ids(w, rep, b)


def neigh_ids(w, rep, b):
    """the links listed are those stored: one list per list, in order, id / distance / internal id of each link"""
    f = w.flow(b)
    wh = "%s:%d" % (b.file, b.line)
    for _, r in f.results():
        c = enumerate_(f, r, 0)
        if c.value is None:
            rep.tri(None if c.unknown else False, "links:shape", "get_neighborhood_id lists nothing", wh)
            continue
        c2 = nest(f, c, c.value, 0, 0)
        v, why = links_shape(w, f, c2, P(1))
        if v is True and len(c.loops) != 1:
            v, why = False, "the lists of the layers are merged"
        rep.tri(v, "links:shape", "get_neighborhood_id: %s" % why, wh, "every link of every layer, layer by layer")


# ------------------------------------------------------------------ C19
@check("C19")
def c19(w, rep):
    b = w.fn("from", impl_of="FlatNeighborhood", trait="From")
    it = w.fn("next", impl_of="IterPoint", trait="Iterator")
    it1 = w.fn("next", impl_of="IterPointLayer", trait="Iterator")
    f = w.flow(b, stop=[it.id, it1.id], key="flat")
    wh = "%s:%d" % (b.file, b.line)
    fp = w.adt("FlatPoint")
    ins = [n for n in f.order if n.call is not None and mname(n) in ("insert", "extend", "entry", "collect", "from_iter") and
           n.call.args and (n.call.args[0].op == "new" and n.call.args[0].a[0].endswith("Map") or mname(n) in ("extend",))]
    maps = {x for _, r in f.results() for x in subterms(r) if x.op in ("new", "coll")}
    pairs = []
    for n in ins:
        if n.call.args[0] in maps and len(n.call.args) >= 3:
            loops = loop_nexts(f, n)
            pairs.append((n, n.call.args[1], n.call.args[2], loops))
    for _, r in f.results():
        for x in subterms(r):
            if x.op == "coll":
                c = enumerate_(f, x, 0)
                if c.value is not None and c.value.op == "agg" and c.value.a[0] == "tuple" and len(c.value.a) == 4:
                    n0 = node_by_id(f, x.a[1]) or f.exit
                    pairs.append((n0, c.value.a[2], c.value.a[3], c))
    rep.count("insertions into the flattened table", len(pairs))
    if not pairs:
        rep.tri(None if any(opaque(r) for _, r in f.results()) else False, "table", "the flattened neighbourhood records no point", wh)
    for n, k, v, loops in pairs:
        key = "table:"
        p = None
        for x in [v] + sorted(subterms(v), key=lambda z: z.id):
            pass
        vid = agg_get(v, flat_role(w, fp, "id")) if v.op == "agg" else None
        if vid is None:
            rep.unk(key + "value", "record not understood %s" % show(v, 5), n.where)
            continue
        base = vid
        while base.op in ("field", "copy"):
            if base.op == "field" and base.a[1] == w.pf["id"]:
                p = base.a[0]
                break
            base = base.a[0]
        if p is None:
            rep.tri(None if opaque(vid) else False, key + "id", "the record of a point carries %s as id" % show(vid, 5), n.where)
            continue
        rep.tri(True if strip(k) is T("field", p, w.pf["id"]) else (None if opaque(k) else False), key + "key",
                "the links of a point are recorded under %s instead of its id" % show(k, 5), n.where, "recorded under the caller's id")
        pid = agg_get(v, flat_role(w, fp, "pid"))
        rep.tri(True if strip(pid) is T("field", p, w.pf["pid"]) else (None if opaque(pid) else False), key + "pid",
                "the record of a point carries the internal id %s" % show(pid, 5), n.where)
        # every point of the index
        if isinstance(loops, Compr):
            seq = loops
            src, bad, unk = [x for x, _ in seq.loops], seq.partial, seq.unknown
        else:
            src, bad, unk = [], [], []
            for it_, s in loops:
                c = enumerate_(f, it_, s)
                src += [x for x, _ in c.loops]
                bad += c.partial
                unk += c.unknown
            order = [s for _, s in loops]
            for i, s in enumerate(order):
                tgt = n if i == len(order) - 1 else node_by_id(f, order[i + 1])
                y = skipped(f, s, tgt)
                if y:
                    bad.append(y)
        allp = len(src) == 1 and src[0].op == "agg" and src[0].a[0] == "IterPoint" and p.op == "elem" and p.a[0] is src[0]
        allp = allp or (len(src) == 2 and whole_layers(w, src) and p.op in ("elem", "index"))
        if bad:
            rep.bad(key + "points", "not every stored point is recorded (%s)" % "; ".join(bad), n.where)
        else:
            one = [x for x in src if x.op == "agg" and x.a[0] == "IterPointLayer"]
            rep.tri(True if allp else (False if one and len(src) == 1 else None), key + "points", "the points recorded are those of %s" %
                    [show(x, 4) for x in src], n.where, "every point iterated")
        # the links
        nbv = agg_get(v, flat_role(w, fp, "nb"))
        inner = nbv
        while inner.op == "sorted":
            inner = inner.a[0]
        c = contents(f, inner) if inner.op == "new" else enumerate_(f, inner, 0)
        sorts = [n2 for n2 in f.order if n2.call is not None and n2.call.args and n2.call.args[0] is inner and (mname(n2) in SORTS or mname(n2) == "reverse")]
        vv, why = links_shape(w, f, c, p)
        rep.tri(vv, key + "links", "the links recorded for a point: %s" % why, n.where, "all links of all layers of the point")
        o = Order(w, f, names(w)).of(nbv)
        if o is None or (o == "missing"):
            v = None
            if inner.op == "new" and len(c.loops) == 2 and not c.unknown:
                # gathered from several lists: in no order before it is sorted
                conds = [a for n2 in sorts for d in [n2] + f.doms(n2) for _, a in d.facts if not f.dominates(d, loop_end(f, inner))]
                free = [n2 for n2 in sorts if all(f.must_reach(g, lambda x, n2=n2: x is n2) for g in events(f, inner, GROW))]
                if not free and not any(x.op == "phi" or x.op == "call" for a in conds for x in subterms(a)):
                    cut = [a for a in conds if a.op in ("lt", "eq") and any(x.op == "len" for x in subterms(a))]
                    small = cut and all(min([y.a[0] for y in a.a if y.op == "int"] or [0]) <= 2 for a in cut)
                    v = None if small else False
                # sorted on a distance rounded to an integer: links nearer than that to each other are in no order
                if sorts and all(mname(n2).endswith("_key") and any(x.op == "cast" and str(x.a[0])[:1] in "iu" and len(str(x.a[0])) <= 5 and
                                 any(y.op == "field" for y in subterms(x)) for x in subterms(f.filter_ret.get(n2.id) or UNIT)) for n2 in sorts):
                    v = False
            rep.tri(v, key + "sorted", "the links recorded for a point come from several lists and are not sorted on every path", n.where)
        else:
            rep.req(o in ("asc", "any"), key + "sorted", "the links recorded for a point are %s by distance" % {"desc": "decreasing", "none": "not sorted"}.get(o, o), n.where,
                    "increasing distance")
    for n in f.order:
        if n.call is not None and n.call.args and (n.call.args[0] in maps) and mname(n) in ("remove", "remove_entry", "retain", "drain", "clear", "extract_if"):
            rep.bad("table:kept", "points recorded are taken out of the flattened neighbourhood again by %s" % n.call.name, n.where)
    get_neigh(w, rep)


def loop_end(f, c):
    """the last node growing c"""
    g = list(events(f, c, GROW))
    return g[-1] if g else f.exit


def flat_role(w, fp, role):
    for nm, ti, _ in fp.fields:
        s = w.prog.ts(ti)
        if role == "id" and s == "usize" or role == "pid" and s.endswith("PointId") or role == "nb" and "Vec<" in s:
            return nm
    raise Missing("field %s of FlatPoint" % role)


def whole_layers(w, src):
    return is_layers(w, src[0]) and src[1].op in ("elem", "index") and src[1].a[0] is src[0]


def get_neigh(w, rep):
    b = w.fn("get_neighbours", impl_of="FlatNeighborhood")
    f = w.flow(b)
    wh = "%s:%d" % (b.file, b.line)
    nbf = flat_role(w, w.adt("FlatPoint"), "nb")
    for p, r in f.results():
        for x in f.alts(r):
            if x.op == "agg" and "None" in str(x.a[0]):
                node = p if p is not None else f.exit
                ok = any((not pol) and a.op in ("isok", "contains") and any(y.op in ("mapget", "contains") for y in [a.a[0], a]) for pol, a in f.facts_at(node))
                rep.tri(True if ok else (False if not f.facts_at(node) else None), "get:none", "get_neighbours answers nothing for a recorded point", wh)
                continue
            v = None
            if x.op == "optmap" and x.a[0].op == "mapget":
                v = x.a[1]
                g = x.a[0]
            elif x.op == "agg" and "Some" in str(x.a[0]):
                v = x.a[-1]
                g = None
            else:
                rep.unk("get:value", "result not understood: %s" % show(x, 5), wh)
                continue
            y = strip_copy(v)
            got = y.op == "field" and y.a[1] == nbf and (y.a[0].op == "pay" and y.a[0].a[0].op == "mapget" or y.a[0].op == "index")
            key = None
            if got:
                m = y.a[0].a[0] if y.a[0].op == "pay" else y.a[0]
                key = m.a[1]
            rep.tri(True if got and strip(key) is P(2) else (None if opaque(v) else False), "get:value", "get_neighbours answers with %s instead of the links recorded for "
                    "the id asked" % show(v, 6), wh, "links recorded under the id asked")
