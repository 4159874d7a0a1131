"""C20-C28: what is dumped, reloaded and memory mapped."""
from . import check
from .common import *
from .norm import *
from .wire import *
from .insert import uncast
from .misc import getfield, verdict

FMT = ("graph", "data")


def dump_fn(w):
    return w.fn("file_dump", impl_of="Hnsw", trait="AnnT")


def readers(w):
    return [w.fn("load_hnsw", impl_of="HnswIo"), w.fn("load_hnsw_with_dist", impl_of="HnswIo")]


class At:
    """where a result is given, and what is known of it then"""

    def __init__(self, f, node, facts=()):
        self.node = node if node is not None else f.exit
        self.facts = facts
        self.where = self.node.where


def at_ok(f, at, pred, since=None):
    """pred on every path to the success result"""
    return any(f.fact_sat(c, pred, 0, (), since) for c in at.facts) or f.holds_at(at.node, pred, 0, since)


def ok_results(f):
    """[(At, value)] of the success results"""
    out = []

    def go(p, r, facts, depth):
        if r.op == "agg":
            if r.a[0] in OKV:
                out.append((At(f, p, facts), r))
        elif r.op == "optmap" and depth < 4:
            fs = facts + tuple(f.atoms(isok(r.a[0]), True))
            if len(r.a) > 3 and r.a[2] == "and_then":
                fs += tuple(f.atoms(isok(r.a[3]), True))
            if r.a[2] == "map":
                out.append((At(f, p, fs), agg("Result::Ok", ("0",), (r.a[1],))))
            elif r.a[2] == "map_err":
                go(p, r.a[0], fs, depth + 1)
            else:
                out.append((At(f, p, fs), agg("Result::Ok", ("0",), (T("pay", r),))))
        elif r.op == "phi" and depth < 4:
            for q, x in f.alts_at(r):
                go(p, x, facts, depth + 1)
        else:
            out.append((At(f, p, facts + tuple(f.atoms(isok(r), True))), agg("Result::Ok", ("0",), (pay(r),))))
    for p, r in f.results():
        go(p, r, (), 0)
    return out


def pinned(f, vals):
    """value -> constant it is equal to whenever the function succeeds"""
    out = {}
    oks = ok_results(f)
    for n in f.order:
        for pol, a in n.facts:
            if a.op == "eq":
                for i in (0, 1):
                    x, c = a.a[i], a.a[1 - i]
                    if c.op == "int" and x in vals and x not in out:
                        def pred(k, y, x=x, c=c):
                            return k == "fact" and y[0] and y[1].op == "eq" and set(y[1].a) == {x, c}
                        if oks and all(at_ok(f, p, pred) for p, _ in oks):
                            out[x] = c
    return out


def flat_items(items):
    for i in items:
        if isinstance(i, Loop):
            yield from flat_items(i.items)
        else:
            yield i


class Dump:
    """the writer: items of the two files"""
    version, scaled = 4, True

    def older(self, version, mark):
        """the same dump in the layout of an older format"""
        d = Dump.__new__(Dump)
        d.__dict__.update(self.__dict__)
        g = list(self.items[self.graph])
        m = [e for e in g if isinstance(e, Ev)][0]
        if m.kind is None or m.kind[1] != "u32":
            raise Unclear("the mark beginning the graph file")
        d.version = version
        d.pins = {**self.pins, m.value: I(mark)}
        e = Ev(m.node, T("str", "mark"), m.width, m.kind)
        d.pins[e.value] = I(mark)
        if version < 4:
            d.scaled = False
            fl = [x for x in g if isinstance(x, Ev) and x.kind is not None and x.kind[1] == "f64"]
            if len(fl) != 1:
                raise Unclear("the level scale in the graph file")
            g.remove(fl[0])
        g[0] = e
        d.items = {**self.items, self.graph: g}
        return d

    def __init__(self, w):
        self.w = w
        self.b = dump_fn(w)
        self.f = w.flow(self.b)
        ks = streams(self.f, "w")
        self.keys = list(ks)
        if len(ks) != 2:
            raise Unclear("writes %s files" % len(ks))
        self.items = {k: Wire(self.f, k, "w").sequence() for k in self.keys}
        # the graph is the one holding the names
        gk = [k for k in self.keys if any(i.value.op == "type_name" for i in flat_items(self.items[k]))]
        if len(gk) != 1:
            raise Unclear("the file holding the type name")
        self.graph = gk[0]
        self.data = [k for k in self.keys if k != gk[0]][0]
        self.pins = pinned(self.f, {i.value for k in self.keys for i in flat_items(self.items[k])})

    def const(self, e):
        v = self.pins.get(e.value, e.value)
        return v if v.op == "int" else None


def decided(g, known):
    """conditions tested whose value is known once the payloads are resolved"""
    out = {}
    for n in g.order:
        for pol, a in n.facts:
            if a in known or a in out or a.op not in ("eq", "lt", "isok", "is"):
                continue
            if a.op == "isok" and a.a[0].op == "phi":
                continue
            v = settle(g, a)
            if v is TRUE or v is FALSE:
                out[a] = v is TRUE
    return out


# functions of where bytes are, or of where something is in a text, not of a value read
ADDRESSES = ("align_offset", "is_aligned", "align_of", "find", "rfind")


def read_oddly(g):
    """a test on a value read through a function which is not interpreted"""
    for n in g.order:
        for _, a in n.facts:
            for t in (a.a if a.op in ("eq", "lt") else ()):
                t = settle(g, t) if isinstance(t, Term) else t
                if isinstance(t, Term) and any(y.op == "call" and not y.a[0].startswith("String::") and y.a[0].split("::")[-1] not in ADDRESSES and any(z.op in ("encode", "readbytes") for z in subterms(y)) for y in [t] + list(subterms(t))):
                    return t
    return None


class Reload:
    """a reader specialised on what the writer writes, and the values it reads in terms of the values written"""

    def __init__(self, w, d, b, assume=None, items=None):
        """items: what of the files is read, by default all"""
        self.w, self.d, self.b = w, d, b
        items = self.items = items or {k: d.items[k] for k in (d.graph, d.data)}
        given, assume = {}, dict(assume or {})
        for turn in range(6):
            g = w.flow(b, given=given, assume=assume)
            bad, new = [], {}
            for k in items:
                seen = {}
                try:
                    Wire(g, main_stream(g, "r", k[0]), "r").match(items[k], lambda s, e, x: seen.setdefault(e.node.id, set()).add(x), lambda *a: None)
                except Mismatch as m:
                    bad.append(m)
                for s, xs in seen.items():
                    if len(xs) == 1:
                        x = next(iter(xs))
                        c = d.const(x)
                        if c is not None and x.kind is not None and s not in given:
                            new[s] = T("encode", x.kind[0], x.kind[1], c)
            more = decided(g, assume)
            if not new and not more:
                break
            given = {**given, **new}
            assume = {**assume, **more}
        odd = bad and read_oddly(g)
        if odd:
            raise Unclear("what is read is tested through %s" % show(odd, 6))
        self.g, self.bad, self.given = g, bad, given
        self.no_map = False
        self.widths = []
        self.reads = {}
        self.counts = []
        self.by_site = {}
        self.loops = {}
        self.wsites = {}
        self.wev = Eval(w, d.f, sites=self.wsites)
        self.ev = Eval(w, g, reads=self.reads, own=False)
        if not bad:
            for k in items:
                Wire(g, main_stream(g, "r", k[0]), "r").match(items[k], self.on_ev, self.on_loop)

    def turn(self, s):
        ts = Region(self.g).turns(s)
        return ts[0] if ts else None

    def wit(self, s):
        def find(items):
            for i in items:
                if isinstance(i, Loop):
                    if i.site == self.loops[s]:
                        return i.it
                    r = find(i.items)
                    if r is not None:
                        return r
        for k in self.d.keys:
            r = find(self.d.items[k])
            if r is not None:
                return r

    def wval(self, x):
        v = self.wev(x.value)
        if x.value in self.d.pins:
            v = self.d.pins[x.value]
        return T("encode", x.kind[0], x.kind[1], v) if x.kind is not None else v

    def on_ev(self, wire, e, x):
        self.by_site[e.node.id] = x
        wl = x.width
        rl = self.ev(e.width)
        wl2 = wl if wl.op == "int" else self.wev(wl)
        if rl is not wl2:
            und = rl.op == "int" and wl2.op == "int"
            self.widths.append((und or not opaque(rl) and not opaque(wl2), e, x, rl, wl2))
        self.reads[e.value.a[0] if e.value.op == "readbytes" else e.value] = self.wval(x)
        self.ev.memo.clear()

    def on_loop(self, wire, head, s, want):
        if want.site not in self.wsites:
            self.wsites[want.site] = T("lpos", s)
            for s2 in self.wev.map_sites(want.it) or ():      # elements of a map are written as its value at the site of its closure
                self.wsites.setdefault(s2, self.wsites[want.site])
            self.wev.memo.clear()
        self.ev.sites.setdefault(s, self.wsites[want.site])
        a = self.ev.length(self.ev(wire.sites[s]), 0)
        c = self.wev.length(self.wev(want.it), 0)
        self.counts.append((s, a, c, head))
        self.loops[s] = want.site


def canon(t):
    """casts removed"""
    m = {}

    def go(x):
        if x in m:
            return m[x]
        if x.op == "cast":
            r = go(x.a[1])
        else:
            a = [go(y) if isinstance(y, Term) else y for y in x.a]
            r = rebuild(x.op, a) if any(p is not q for p, q in zip(a, x.a)) else x
        m[x] = r
        return r
    return go(t)


def unread(t):
    for x in subterms(t):
        if x.op in ("call", "phi", "other", "undef", "unk", "?", "cparam", "init", "entryval", "new", "newat", "choice", "pay", "encode", "decode", "readbytes"):
            if x.op == "pay" and x.a[0].op in ("prot", "param", "orig", "field"):
                continue
            if x.op == "call" and x.a[0].startswith(("f64::", "f32::")):
                continue
            return True
    return False


WORLD = [None]


def lossy(t, skip=()):
    """[(type, value)] of the conversions of a term which lose large values"""
    w, out = WORLD[0], []
    for c in [t] + list(subterms(t)):
        if c.op != "cast" or c in skip or PW.get(c.a[0], 8) >= 8:
            continue
        x = uncast(c)
        if x.op in ("int", "elem", "pos", "lpos") or x.op == "decode" and PW.get(x.a[1], 8) <= PW[c.a[0]] or opaque(x):
            continue
        if x.op == "field" and (x.a[1] in ("0", "1") or w is not None and x.a[1] in (
                field_of_getter(w, "get_max_nb_connection", "Hnsw"), field_of_getter(w, "get_max_level", "Hnsw"), w.hf.get("max"), "max_nb_connection")):
            continue
        if x.op == "len" and any(y.op == "field" and w is not None and y.a[1] == w.pif["layers"] for y in [x.a[0]] + list(x.a[0].a)
                                 + [z for y in x.a[0].a if isinstance(y, Term) for z in y.a] if isinstance(y, Term)) and x.a[0].op != "index":
            continue
        out.append((c.a[0], x))
    return out


def same(rep, key, msg, got, want, where):
    a, b = canon(got), canon(want)
    if a is b:
        for ty, x in lossy(got) + lossy(want):
            rep.bad(key, "%s: %s is cut to %s on the way" % (msg, show(x, 5), ty), where)
            return False
        rep.ok(key, where, "%s" % show(b, 5))
        return True
    if unread(a) or unread(b):
        rep.unk(key, "%s: %s against %s" % (msg, show(a, 7), show(b, 7)), where)
        return None
    rep.bad(key, "%s: %s instead of %s" % (msg, show(a, 7), show(b, 7)), where)
    return False


def field_of_getter(w, name, impl):
    b = w.fn_opt(name, impl_of=impl)
    if b is None:
        return None
    rs = w.flow(b).results()
    if len(rs) == 1:
        t = uncast(rs[0][1])
        if t.op == "field" and t.a[0].op == "param":
            return t.a[1]
    return None


# ------------------------------------------------------------------ C20
REORD = ("rev", "sorted")
LEAVES = ("skip", "take", "filter", "filtermap", "stepby", "takewhile", "dedup", "slice", "zip", "chain")


def chain_ops(t, depth=0):
    """operations between a collection and its iteration"""
    out = []
    while isinstance(t, Term) and depth < 20:
        if t.op in REORD or t.op in LEAVES:
            out.append(t.op)
        elif t.op not in ("enum", "copy", "coll", "copied", "map", "keys", "values", "peekable"):
            break
        t = t.a[0]
        depth += 1
    return out


def good_reach(wire, starts, stop=lambda n: False):
    seen, st = set(), list(starts)
    while st:
        n = st.pop()
        if n in seen or failing_edge(n):
            continue
        seen.add(n)
        if stop(n):
            continue
        st.extend(wire.succ(n))
    return seen


class Region:
    """success paths of a flow"""

    def __init__(self, f):
        self.f = f
        self.bad = bad_edges(f)

    succ = Wire.succ

    def turns(self, site):
        out = [n for n in self.f.order if self.f.hof_loop.get(n.id, (0, None))[1] == site]
        for n in self.f.order:
            for pol, a in n.facts:
                if pol and a.op == "isok" and a.a[0].op == "next" and a.a[0].a[1] == site:
                    out.append(n)
        return out

    def every_turn(self, site, target):
        """each successful turn of the loop executes target: reason why not, or None"""
        head = node_by_id(self.f, site)
        ts = self.turns(site)
        if head is None or not ts:
            return "?"
        r = good_reach(self, [t for t in ts if t is not target], stop=lambda z: z is target or z is head)
        if head in r:
            return "a turn of the loop at %s can avoid it" % head.where
        if self.f.exit in r:
            return "the loop at %s can be left early" % head.where
        after = good_reach(self, [target], stop=lambda z: z is head)
        if self.f.exit in after and head not in after:
            return "the loop at %s is left after it" % head.where
        if self.f.exit in after:
            return "the loop at %s can be left early" % head.where
        return None

    def fails(self, n):
        return self.f.exit not in good_reach(self, [n])


def whole(rep, reg, key, node, sites, what, where):
    """node executed for every element of every loop of sites"""
    f = reg.f
    its = {s: it for it, s in loop_nexts(f, node)}
    order = [s for _, s in loop_nexts(f, node) if s in sites]
    for i, s in enumerate(order):
        ops = chain_ops(its[s])
        lv = [o for o in ops if o in LEAVES]
        tgt = node if i == len(order) - 1 else node_by_id(f, order[i + 1])
        why = reg.every_turn(s, tgt)
        if lv:
            rep.bad(key, "%s: the loop at %s goes over a part only (%s)" % (what, node_by_id(f, s).where, "/".join(lv)), where)
        elif why == "?":
            rep.unk(key, "%s: loop not read" % what, where)
        elif why:
            rep.bad(key, "%s: %s" % (what, why), where)
        else:
            rep.ok(key, where, "%s: every turn of loop %s" % (what, node_by_id(f, s).where))


def ruined(w, f, x, placed):
    """a call which loses elements of the collection x, or (placed) gives them other places"""
    ids = {w.pf["id"], w.nf["id"]}
    for n in f.order:
        if n.call is None or not n.call.args or n.call.args[0] is not x:
            continue
        m = mname(n)
        key = f.filter_ret.get(n.id)
        key = key.a[1] if key is not None and key.op == "field" else None
        if m == "dedup_by_key" and (key in ids or key in (w.nf["d"], w.pwo_d)):
            return n, "elements of the same %s as the one before are lost" % key
        if placed and (m in SORTS and key in ids or m == "reverse" or m in DISORDER):
            return n, "elements are given other places (%s)" % m
    return None


def at_slot(w, t):
    """the point at the slot named by the internal id of a point is that point"""
    m = {}

    def go(x):
        if x in m:
            return m[x]
        a = [go(y) if isinstance(y, Term) else y for y in x.a]
        r = rebuild(x.op, a) if any(p is not q for p, q in zip(a, x.a)) else x
        if r.op == "index" and r.a[0].op == "index":
            i, j = r.a[0].a[1], r.a[1]
            if i.op == "field" and j.op == "field" and i.a[1] == "0" and j.a[1] == "1" and i.a[0] is j.a[0] \
                    and i.a[0].op == "field" and i.a[0].a[1] == w.pf["pid"] and r.a[0].a[0].op == "prot":
                r = i.a[0].a[0]
        m[x] = r
        return r
    return go(canon(t))


def narrow(rep, w, d):
    n = 0
    for k in d.keys:
        for e in flat_items(d.items[k]):
            n += 1
            v = e.value
            key = "narrow:%s:%s" % (k[0], show(uncast(v), 4)[:60])
            if v.op == "cast" and v not in d.pins:
                for ty, x in lossy(v.a[1]):
                    rep.bad(key, "%s is cut to %s before being dumped: larger values do not reload" % (show(x, 5), ty), e.node.where)
            if v.op != "cast" or v in d.pins or PW.get(v.a[0], 8) >= 8 and e.kind and PW.get(e.kind[1], 8) >= 8:
                continue
            x = uncast(v)
            if x.op == "len" and x.a[0].op == "prot" and x.a[0].a[0].op == "guard" and \
                    x.a[0].a[0].a[0].op == "field" and x.a[0].a[0].a[0].a[1] == w.pif["layers"]:
                rep.ok(key, e.node.where, "number of layers")
                continue
            if x.op in ("elem", "pos"):
                rep.ok(key, e.node.where, "loop index")
                continue
            mx = field_of_getter(w, "get_max_nb_connection", "Hnsw")
            if x.op == "field" and x.a[1] in (mx, w.hf.get("max")):
                rep.ok(key, e.node.where, "at most 255 (C15)")
                continue
            if opaque(x):
                rep.unk(key, "%s dumped on %s" % (show(x, 5), v.a[0]), e.node.where)
            else:
                rep.bad(key, "%s is dumped on %s only: larger values do not reload" % (show(x, 5), v.a[0]), e.node.where)
    rep.count("values dumped", n, 20)


def data_values(w, f, t):
    """vectors a point data term can hold: [(pred, vector)]"""
    out, seen = [], set()

    def go(p, t, depth):
        for q, x in f.alts_at(t):
            q = q or p
            x = settle(f, x)
            for y in (x.a if x.op == "choice" else (x,)):
                if y in seen or depth > 12:
                    continue
                seen.add(y)
                if y.op == "agg" and y.a[0] in NOKV:
                    continue
                if y.op == "pay" and y.a[0].op == "phi":
                    for z, v in f.alts_at(y.a[0]):
                        if not (v.op == "agg" and v.a[0] in NOKV):
                            go(z or q, pay(v), depth + 1)
                elif y.op == "agg" and len(y.a) >= 3:
                    go(q, y.a[2], depth + 1)
                elif y.op == "phi":
                    go(q, y, depth + 1)
                else:
                    out.append((q, y))
    go(None, t, 0)
    return out


def vec_bytes(v):
    """bytes a vector is made from when it is a copy of them as elements of T: (bytes, count)"""
    while v.op in ("copy", "coll", "copied"):
        v = v.a[0]
    if v.op == "rawslice" and v.a[0].op == "ptrcast" and v.a[0].a[1].op == "ptr":
        return v.a[0].a[1].a[0], v.a[1], v.a[0].a[0]
    return None


def size_mul(t):
    """(count, ) when t is count * size_of(T)"""
    if t.op == "bin" and t.a[0] == "Mul":
        for i in (1, 2):
            if t.a[i].op == "size_of":
                return t.a[3 - i]
    return None


def one_size(t):
    return t.op == "size_of" or (t.op == "max" and any(x.op == "size_of" for x in t.a) and all(x.op == "size_of" or x is I(1) for x in t.a))


def bincoded(rep, r, key, v, vb, where):
    """format 2: the record is the bincode encoding of the vector"""
    x = v.a[0] if v.op == "pay" else v
    if x.op == "call" and x.a[0].split("::")[-1] == "deserialize" and "bincode" in x.a[0]:
        b = r.ev(x.a[-1])
        src = vec_bytes(b)
        rep.tri(True if src is not None else None if unread(b) else False, key, "what is decoded is %s" % show(b, 6), where,
                okmsg="bincode decoding of the bytes of the record")
        return 1
    if vb is not None:
        mapped = any(y.op == "slice" or (y.op == "field" and "mmap" in y.a[1]) for y in subterms(vb[0]))
        if not mapped or r.no_map:
            rep.bad(key, "a bincode encoded vector is read as raw bytes", where)
    else:
        rep.unk(key, "vector of the reloaded point: %s" % show(v, 6), where)
    return 0


def scale(rep, w, r, key, got, want, where):
    if not r.d.scaled:
        mx = field_of_getter(w, "get_max_nb_connection", "Hnsw")
        c = canon(got)
        good = c.op == "bin" and c.a[0] == "Div" and c.a[1].op == "float" and float(c.a[1].a[0]) == 1.0 and c.a[2].op == "call" \
            and c.a[2].a[0] == "f64::ln" and uncast(c.a[2].a[-1]) is T("field", T("orig", 1), mx)
        rep.tri(True if good else None if unread(c) else False, key,
                "without a level scale in the file, the level scale is %s instead of 1/ln(max connections)" % show(c, 6), where, okmsg=show(c, 6))
        return
    same(rep, key, "the level scale of the reloaded index", got, want, where)


def point_vector(rep, w, r, key, pv, where):
    """the vector of the reloaded point is the one dumped at the same place"""
    f, d = r.g, r.d
    n = 0
    for p, v in data_values(w, f, pv):
        if v.op == "new" and not any(mname(x) in GROW for x in events(f, v)):
            facts = f.facts_at(p) if p is not None else []
            ok = any((a.op == "eq" and pol and any(z.op == "type_id" for z in a.a)) or
                     (a.op == "eq" and pol and any(z is I(0) or z.op == "len" for z in a.a)) for pol, a in facts)
            if ok:
                rep.ok(key + ":nodata", where, "no vector only for NoData or an empty one")
            else:
                rep.unk(key + ":nodata", "an empty vector is loaded under an unknown condition", where)
            continue
        vb = vec_bytes(v)
        if d.version == 2:
            n += bincoded(rep, r, key, v, vb, where)
            continue
        if vb is None:
            if v.op == "call" and "deserialize" in v.a[0]:
                rep.bad(key, "a vector dumped as raw bytes is reloaded by %s" % v.a[0], where)
            elif v.op == "pay" and v.a[0].op == "call" and "deserialize" in v.a[0].a[0]:
                rep.bad(key, "a vector dumped as raw bytes is reloaded by %s" % v.a[0].a[0], where)
            else:
                y = v
                while y.op in ("copy", "coll", "copied"):
                    y = y.a[0]
                part = y.op in ("slice", "take") and vec_bytes(y.a[0]) is not None and [z for z in mins(y.a[-1]) if z.op in ("decode", "int") and z is not y.a[-1]]
                rep.tri(False if part and d.version > 2 else None, key, "vector of the reloaded point: %s" % (
                    "cut to %s elements" % show(part[0], 4) if part else show(v, 6)), where)
            continue
        if any(x.op == "slice" or (x.op == "field" and "mmap" in x.a[1]) for x in subterms(vb[0])):
            rep.ok(key + ":mapped", where, "memory mapped (C27, C28)")
            continue
        b = r.ev(vb[0])
        src = vec_bytes(b)
        if src is None or unread(b):
            rep.unk(key, "bytes of the reloaded vector: %s" % show(b, 6), where)
            continue
        n += 1
        ok = src[0].op == "field" and point_of_data(w, src[0]) is not None
        cnt = size_mul(src[1])
        rep.req(ok, key + ":source", "the bytes dumped are not those of the vector of the point: %s" % show(src[0], 6), where)
        rep.tri(True if cnt is not None and cnt is length(src[0]) else None if cnt is None else False, key + ":len",
                "the bytes dumped are %s for vector %s" % (show(src[1], 6), show(src[0], 5)), where)
        c = r.ev(vb[1])
        good = c.op == "bin" and c.a[0] == "Div" and one_size(c.a[2]) and (c.a[1] is length(b) or size_mul(c.a[1]) is cnt)
        bad = not good and not unread(c)
        rep.tri(True if good else False if bad else None, key + ":count",
                "the reloaded vector has %s elements made from %s" % (show(c, 6), show(b, 5)), where)
        if ok:
            r.owner_of_vector = point_of_data(w, src[0])
    return n


def point_of_data(w, t):
    """point whose vector is t"""
    x = t
    while x.op in ("field", "len") and x.a[1:] and x.a[1] != w.pf["data"]:
        x = x.a[0]
    return x.a[0] if x.op == "field" and x.a[1] == w.pf["data"] else None


@check("C20")
def c20(w, rep):
    WORLD[0] = w
    try:
        d = Dump(w)
    except Unclear as e:
        rep.unk("writer", "what is dumped cannot be listed: %s" % e)
        return
    rep.count("values written to the graph file", len(list(flat_items(d.items[d.graph]))), 15)
    rep.count("values written to the data file", len(list(flat_items(d.items[d.data]))), 4)
    narrow(rep, w, d)
    for b in readers(w):
        c20_reader(w, rep, d, b)


def c20_reader(w, rep, d, b, pre=""):
    key = pre + b.name
    wh = "%s:%d" % (b.file, b.line)
    try:
        r = Reload(w, d, b)
    except Unclear as e:
        rep.unk(key, "what is read cannot be listed: %s" % e, wh)
        return
    except Mismatch as m:
        rep.bad("%s:%s" % (key, m.key), m.msg, m.where or wh)
        return
    for m in r.bad:
        rep.bad("%s:%s" % (key, m.key), "reads the dump otherwise than it is written: %s" % m.msg, m.where or wh)
    if r.bad:
        return
    g = r.g
    rep.count("values read back by %s" % b.name, len(r.by_site), 20)
    for und, e, x, rl, wl in r.widths:
        (rep.bad if und else rep.unk)("%s:width:%s" % (key, show(x.value, 4)[:50]),
                                      "reads %s bytes where %s bytes are written (%s)" % (show(rl, 5), show(wl, 5), show(x.value, 5)), e.node.where)
    # each value decoded as it was encoded
    for n in g.order:
        if n.call is not None and n.call.dest is not None and n.call.dest.op == "decode":
            v = r.ev(n.call.dest)
            for y in subterms(v):
                if y.op == "decode" and y.a[2].op == "encode":
                    rep.bad("%s:coding:%s" % (key, show(y.a[2], 4)[:50]), "%s is read as %s %s" % (show(y.a[2], 5), y.a[0], y.a[1]), n.where)
    for s, a, c, head in r.counts:
        if a.op != c.op and lists_per_point(w) is None and any(x.op == "len" and x.a[0].op == "prot" and x.a[0].a[0].op == "field"
                                                               and x.a[0].a[0].a[1] == w.pf["nb"] for x in (a, c)):
            rep.unk("%s:count:lists" % key, "number of link lists of a point, built in ways not understood: %s against %s" % (show(canon(a), 4), show(canon(c), 4)), head.where)
            continue
        k = "%s:count:%s" % (key, show(canon(c), 4)[:50])
        same(rep, k, "number of turns of the reading loop", a, c, head.where)
        ro = [o for o in chain_ops(dict((x, y) for y, x in loop_nexts(g, r.turn(s)))[s]) if o in REORD or o in LEAVES] if r.turn(s) else []
        wo = [o for o in chain_ops(r.wit(s)) if o in REORD or o in LEAVES]
        rep.req(ro == wo, k + ":order", "the reading loop goes %s, the writing loop %s" % (ro or "in order", wo or "in order"), head.where)
    required(rep, w, r, key)
    oks = ok_results(g)
    if not oks:
        rep.bad(key + ":never", "never returns an index", wh)
    for p, v in oks:
        h = settle(g, pay(v))
        if h.op != "agg":
            rep.unk(key + ":result", "result %s" % show(h, 4), wh)
            continue
        restored(w, rep, d, r, key, h, p.where)


PLAIN = ("field", "prot", "pay", "len", "index", "orig", "lpos", "type_name", "int", "guard")


def plain(t):
    return all(x.op in PLAIN for x in subterms(t))


def written(w, r, t):
    """values a written value can be, all readable; None when one is not"""
    vs = []
    for x in r.d.f.alts(t) if t.op == "phi" else (t,):
        v = canon(at_slot(w, x if x is t else r.wev(x)))
        if unread(v):
            return None
        vs.append(v)
    return vs


def own_place(w, t):
    """the internal id of the point at a slot is that slot"""
    x = t
    if x.op == "field" and x.a[1] in ("0", "1") and x.a[0].op == "field" and x.a[0].a[1] == w.pf["pid"]:
        p = x.a[0].a[0]
        if p.op == "index" and p.a[0].op == "index" and p.a[0].a[0].op == "prot":
            return p.a[0].a[1] if x.a[1] == "0" else p.a[1]
    return t


def required(rep, w, r, key):
    """conditions without which the reload fails, on what was written"""
    g = r.g
    reg = Region(g)
    n = 0
    for x in g.order:
        for pol, a in x.facts:
            if a.op not in ("eq", "lt") or not reg.fails(x) or failing_edge(x):
                continue
            # going this way fails: pol, a must not be true of the values written
            u, v = [own_place(w, canon(at_slot(w, r.ev(t)))) for t in a.a]
            n += 1
            k = "%s:refused:%s" % (key, show(v if u.op == "int" else u, 4)[:40])
            if a.op == "eq":
                if u is v:
                    if pol:
                        rep.bad(k, "a correct dump is refused: %s" % show(a, 6), x.where)
                    else:
                        rep.ok(k, x.where, "same value")
                elif not pol and u.op == "int" and v.op == "int":
                    rep.bad(k, "a correct dump is refused: %s is %s, not %s" % (show(a, 6), show(u), show(v)), x.where)
                elif not pol:
                    us, vs = written(w, r, u), written(w, r, v)
                    if us and vs and all(plain(t) for t in us + vs) and not set(us) & set(vs):
                        rep.bad(k, "a dump is refused unless %s is %s" % (show(u, 6), show(v, 6)), x.where)
            elif pol and u.op == "int" and v.op == "len" and v.a[0].op == "type_name":
                bounded(rep, w, r, k, v, u, x)
    rep.count("conditions checked by reloads", n)


def bounded(rep, w, r, key, v, c, x):
    """v is at most c whenever a dump succeeds"""
    f = r.d.f

    def pred(k, y):
        if k != "fact" or y[0] or y[1].op != "lt":
            return False
        p, q = y[1].a
        return v in maxs(q) and p.op == "int" and p.a[0] <= c.a[0]
    oks = ok_results(f)
    ok = bool(oks) and all(at_ok(f, p, pred) for p, _ in oks)
    if not ok:
        # a test of another form which may bound it
        odd = [a for y in f.order for pol, a in y.facts if a.op in ("lt", "any", "all", "eq", "contains") and
               not (a.op == "lt" and any(v in maxs(t) for t in a.a if isinstance(t, Term)) and any(isinstance(t, Term) and t.op == "int" for t in a.a)) and
               any(z is v or z is v.a[0] for t in (a,) for z in subterms(t))]
        if odd:
            rep.unk(key, "how the length is limited: %s" % show(odd[0], 6), x.where)
            return
        rep.req(ok, key, "a dump succeeds with %s larger than %s, and is then refused" % (show(v, 5), show(c)), x.where,
            okmsg="not dumped above %s" % show(c))


def restored(w, rep, d, r, key, h, where):
    g = r.g
    orig = T("orig", 1)
    pi = settle(g, agg_get(h, w.hf["pi"]))
    if pi.op != "agg":
        rep.unk(key + ":points", "point structure %s" % show(pi, 4), where)
        return
    opi = T("field", orig, w.hf["pi"])
    # parameters
    for gt, what in (("get_max_nb_connection", "maximum number of connections"), ("get_ef_construction", "construction search width"),
                     ("get_max_level", "maximum number of layers")):
        fl = field_of_getter(w, gt, "Hnsw")
        if fl is None:
            rep.unk("%s:%s" % (key, gt), "accessor not read", where)
            continue
        want = T("field", orig, fl)
        got = r.ev(agg_get(h, fl))
        if fl == field_of_getter(w, "get_max_level", "Hnsw"):
            for e in flat_items(d.items[d.graph]):
                if e.value in d.pins and uncast(r.wev(e.value)) is want:
                    want = d.pins[e.value]
        same(rep, "%s:%s" % (key, fl), "the %s of the reloaded index" % what, got, want, where)
    for nm, ti, vis in w.pi.fields:
        if nm == "max_nb_connection":
            v = r.ev(agg_get(pi, nm))
            a = canon(v)
            rep.tri(True if a in (T("field", orig, nm), T("field", opi, nm)) else None if unread(a) else False, "%s:pi.%s" % (key, nm),
                    "the maximum number of connections of the reloaded points is %s" % show(a, 6), where)
    gen = agg_get(pi, w.pif["gen"]) if "gen" in w.pif else None
    gad = w.adt("LayerGenerator") if gen is not None else None
    if gen is not None:
        gen = settle(g, gen)
        sc = [n for n, ti, v in gad.fields if w.prog.ts(ti) == "f64"]
        for s in sc:
            x = agg_get(gen, s) if gen.op in ("agg", "with") else None
            if x is None:
                rep.unk("%s:%s" % (key, s), "level scale %s" % show(gen, 4), where)
            else:
                scale(rep, w, r, "%s:%s" % (key, s), r.ev(x), T("field", T("field", opi, w.pif["gen"]), s), where)
    reg = Region(g)
    # points
    L = inner(settle(g, agg_get(pi, w.pif["layers"])))
    if L.op != "new":
        rep.unk(key + ":layers", "layers of the reloaded index: %s" % show(L, 5), where)
        return
    gl = r.ev.growth(L)
    gv = None
    if gl is not None:
        V = settle(g, gl[2])
        gv = r.ev.growth(V) if V.op == "new" else None
    if gl is None or gv is None or len(gl[1]) != 1 or len(gv[1]) != 1:
        for x in {L} | ({settle(g, gl[2])} if gl is not None else set()) | {settle(g, v) for n in events(g, L, GROW) for v in n.call.args[1:] if isinstance(v, Term)}:
            bad_ = ruined(w, g, x, True) if x.op == "new" else None
            if bad_:
                rep.bad(key + ":layers", "of the points read, %s" % bad_[1], bad_[0].where)
                return
        rep.unk(key + ":layers", "how the layers of the reloaded index are filled", where)
        return
    so, si = gl[1][0], gv[1][0]
    whole(rep, reg, key + ":layers", gl[0], gl[1], "layers stored", gl[0].where)
    whole(rep, reg, key + ":points", gv[0], gv[1], "points stored", gv[0].where)
    for s, what in ((so, "layers"), (si, "points")):
        if s not in r.loops:
            rep.unk("%s:%s:loop" % (key, what), "the loop storing the %s is not the one reading them" % what, where)
            return
    layers = T("prot", T("field", opi, w.pif["layers"]))
    me = T("index", T("index", layers, T("lpos", so)), T("lpos", si))
    pt = settle(g, gv[2])
    if pt.op != "agg":
        rep.unk(key + ":point", "point stored: %s" % show(pt, 5), gv[0].where)
        return
    for role, what in (("id", "original id"), ("pid", "internal id")):
        v = r.ev(agg_get(pt, w.pf[role]))
        want = T("field", me, w.pf[role])
        if v.op == "agg" and v.a[1]:
            for i, nm in enumerate(v.a[1]):
                same(rep, "%s:point.%s.%s" % (key, role, nm), "the %s of the reloaded point" % what, v.a[2 + i], T("field", want, nm), gv[0].where)
        else:
            same(rep, "%s:point.%s" % (key, role), "the %s of the reloaded point" % what, v, want, gv[0].where)
    r.owner_of_vector = None
    n = point_vector(rep, w, r, key + ":vector", agg_get(pt, w.pf["data"]), gv[0].where)
    if r.owner_of_vector is not None:
        same(rep, key + ":vector:owner", "the vector of the reloaded point is that of", r.owner_of_vector, me, gv[0].where)
    # entry point
    e = inner(settle(g, agg_get(pi, w.pif["entry"])))
    if e.op == "agg" and e.a[0] in OKV:
        v = r.ev(T("field", pay(e), w.pf["pid"]))
        want = T("field", pay(T("prot", T("field", opi, w.pif["entry"]))), w.pf["pid"])
        a = at_slot(w, v)
        if a.op == "agg" and len(a.a[1]) == 2:
            for i, nm in enumerate(a.a[1]):
                same(rep, "%s:entry.%s" % (key, nm), "the entry point of the reloaded index", at_slot(w, a.a[2 + i]), T("field", want, nm), where)
        else:
            same(rep, key + ":entry", "the entry point of the reloaded index", a, want, where)
    elif e.op == "agg":
        rep.bad(key + ":entry", "the reloaded index has no entry point", where)
    else:
        rep.unk(key + ":entry", "entry point of the reloaded index: %s" % show(e, 5), where)
    links(w, rep, r, key, reg, me, where)


def inner(t):
    while t.op in ("lockof", "copy"):
        t = t.a[0]
    return t


def pid_of(w, r, t):
    """internal id of a point term, as a record"""
    v = at_slot(w, r.ev(T("field", t, w.pf["pid"])))
    if v.op == "agg" and len(v.a[1]) == 2:
        x, y = at_slot(w, v.a[2]), at_slot(w, v.a[3])
        if x.op == "field" and y.op == "field" and x.a[0] is y.a[0] and (x.a[1], y.a[1]) == ("0", "1"):
            return x.a[0]
        return v
    return v


def links(w, rep, r, key, reg, me, where):
    g = r.g
    pushes = []
    for n in g.order:
        if n.call is not None and mname(n) in ("push", "insert") and len(n.call.args) >= 2:
            v = settle(g, n.call.args[-1])
            if v.op == "agg" and v.a[0].split("::")[-1] == w.pwo_name:
                pushes.append((n, v))
    if not pushes:
        rep.unk(key + ":links", "where the links are rebuilt", where)
        return
    rep.count("places rebuilding links", len(pushes))
    nbf = w.pf["nb"]
    for n, v in pushes:
        k = key + ":links"
        pl = settle(g, n.call.args[0])
        if not (pl.op in ("index", "elem") and pl.a[0].op == "prot" and pl.a[0].a[0].op == "guard" and
                pl.a[0].a[0].a[0].op == "field" and pl.a[0].a[0].a[0].a[1] == nbf):
            rep.unk(k, "list receiving the links: %s" % show(pl, 5), n.where)
            continue
        owner = pl.a[0].a[0].a[0].a[0]
        op = pid_of(w, r, owner)
        lvl = r.ev(pl.a[1])
        if not (op.op == "field" and op.a[1] == w.pf["pid"]):
            (rep.unk if unread(op) else rep.bad)(k + ":owner", "the point receiving the links is the one at %s" % show(op, 6), n.where)
            continue
        E = op.a[0]
        if E is not me:
            (rep.unk if unread(E) else rep.bad)(k + ":owner", "the point receiving the links is %s, not the one they were dumped for" % show(E, 6), n.where)
            continue
        lists = T("prot", T("field", E, nbf))
        dist = canon(r.ev(agg_get(v, w.pwo_d)))
        tp = pid_of(w, r, agg_get(v, w.pwo_pt))
        lst = T("index", lists, canon(lvl))
        # the link read: position in the list
        if dist.op == "field" and dist.a[1] == w.pwo_d and dist.a[0].op == "index":
            link = dist.a[0]
            rep.req(link.a[0] is lst, k + ":level", "a link dumped in list %s is put in list %s" % (show(link.a[0], 7), show(lst, 7)), n.where,
                    okmsg=show(lst, 5))
            want = T("field", T("field", link, w.pwo_pt), w.pf["pid"])
            same(rep, k + ":target", "the point linked to", tp, want, n.where)
        else:
            (rep.unk if unread(dist) else rep.bad)(k + ":dist", "the distance of a reloaded link is %s" % show(dist, 7), n.where)
        if not n.call.name.endswith("::push"):
            rep.unk(k + ":push", n.call.name, n.where)
        ls = [s for _, s in loop_nexts(g, n)]
        whole(rep, reg, k + ":all", n, ls, "links rebuilt", n.where)
        if any(o in REORD for it, _ in loop_nexts(g, n) for o in chain_ops(it) if it.op == "enum"):
            rep.unk(k + ":order", "lists taken in another order", n.where)
        # every collection the links come through is completely filled
        seen = set()
        st = [it for it, _ in loop_nexts(g, n)]
        while st:
            t = st.pop()
            for x in subterms(settle(g, t)):
                if x.op == "new" and x not in seen:
                    seen.add(x)
                    gr = r.ev.growth(x)
                    if gr is None:
                        bad_ = ruined(w, g, x, False)
                        if bad_:
                            rep.bad(k + ":filled", "of the links read, %s" % bad_[1], bad_[0].where)
                        elif any(mname(z) in GROW or mname(z) in SHRINK for z in events(g, x)):
                            rep.unk(k + ":filled", "how %s is filled" % show(x, 3), n.where)
                        continue
                    whole(rep, reg, k + ":read", gr[0], gr[1], "links read and kept", gr[0].where)
                    st.append(gr[2])


# ------------------------------------------------------------------ C21
MARKS = {2: 0x002a677f, 3: 0x002a6771, 4: 0x002a6779}


def specialised(w, b, given):
    """flow of b with what is read at given sites known"""
    assume = {}
    for turn in range(6):
        g = w.flow(b, given=given, assume=assume)
        more = decided(g, assume)
        if not more:
            break
        assume = {**assume, **more}
    return g


def first_read(f, end):
    """the first value read from the file of that name"""
    wi = Wire(f, main_stream(f, "r", end), "r")
    h = [x for x in wi.hits([f.entry], None) if not isinstance(x, str)]
    if len(h) != 1 or h[0] not in wi.ev:
        raise Unclear("the first value read from *%s" % end)
    return h[0]


def marks_of(f, n):
    """tests on the value read at n: [(atom, constant)], others"""
    eqs, oth = [], []
    for x in f.order:
        for pol, a in x.facts:
            ts = [settle(f, t) for t in a.a if isinstance(t, Term)]
            if not any(y.op == "readbytes" and y.a[0] == n.id for t in ts for y in subterms(t)):
                continue
            if a.op == "eq" and any(t.op == "int" for t in ts) and any(uncast(t).op == "decode" for t in ts):
                k = [t for t in ts if t.op == "int"][0].a[0]
                if (a, k) not in eqs:
                    eqs.append((a, k))
            elif a.op in ("eq", "lt", "is"):
                oth.append(a)
    return eqs, oth


@check("C21")
def c21(w, rep):
    WORLD[0] = w
    b = w.fn("load_description")
    f = w.flow(b)
    wh = "%s:%d" % (b.file, b.line)
    n = None
    for x in f.order:
        if direction(f, x) == "r":
            n = x
            break
    if n is None:
        rep.unk("mark", "where the mark is read", wh)
        return
    eqs, oth = marks_of(f, n)
    ks = {k for _, k in eqs}
    def loses(t):
        """a part of the bits of the mark"""
        t = uncast(t)
        if t.op == "bin" and t.a[0] in ("BitAnd", "Shr", "Rem", "Div") and any(uncast(x).op == "decode" for x in t.a[1:]):
            c = [x for x in t.a[1:] if x.op == "int"]
            return bool(c) and not (t.a[0] == "BitAnd" and c[0].a[0] & 0xffffffff == 0xffffffff) and not (t.a[0] in ("Shr", "Div") and c[0].a[0] == (0 if t.a[0] == "Shr" else 1))
        return False
    part_ = [a for a in oth if a.op == "eq" and any(loses(settle(f, x)) for x in a.a)]
    if part_ and len(part_) == len(oth) and not eqs:
        rep.bad("mark", "only a part of the bits of the mark is compared: %s" % show(part_[0], 4), n.where)
        return
    if not eqs or oth:
        rep.unk("mark", "how the mark is tested: %s" % [show(a, 4) for a in oth], n.where)
    else:
        rep.count("marks accepted", len(ks), 3)
        for v, k in MARKS.items():
            g = specialised(w, b, {n.id: T("encode", "ne", "u32", I(k))})
            rep.req(bool(ok_results(g)), "accept:%d" % v, "a description beginning with the mark of format %d is refused" % v, n.where)
        g = w.flow(b, assume={a: False for a, _ in eqs})
        rep.req(not ok_results(g), "unknown", "a description beginning with an unknown mark is accepted", n.where, okmsg="error for any mark not among %s" % sorted(ks))
        for k in sorted(ks - set(MARKS.values())):
            g = specialised(w, b, {n.id: T("encode", "ne", "u32", I(k))})
            if ok_results(g):
                rep.unk("mark:%x" % k, "another mark is accepted", n.where)
    # the memory map
    m = w.fn("from_hnswdump", impl_of="DataMap")
    mf = w.flow(m)
    mw = "%s:%d" % (m.file, m.line)
    try:
        d = Dump(w)
        x = first_read(mf, d.graph[0])
        for v, k in MARKS.items():
            g = specialised(w, m, {x.id: T("encode", "ne", "u32", I(k))})
            ok = bool(ok_results(g))
            if v == 2:
                rep.tri(True if not ok else None if read_oddly(g) else False, "map:2", "a dump of format 2 is memory mapped as if its vectors were raw", mw, okmsg="refused")
            else:
                rep.req(ok, "map:%d" % v, "a dump of format %d is not memory mapped" % v, mw)
    except Unclear as e:
        rep.unk("map", str(e), mw)
        return
    except Mismatch as e:
        rep.bad("map", e.msg, mw)
        return
    # the whole reload, in each layout
    for v, k in MARKS.items():
        try:
            dv = d.older(v, k)
        except Unclear as e:
            rep.unk("layout:%d" % v, str(e), wh)
            continue
        for r in readers(w):
            tmp = Report(rep.cid)
            c20_reader(w, tmp, dv, r, pre="v%d:" % v)
            kept = [i for i in tmp.items if any(x in i[1] for x in (":width:", ":coding:", ":scale", ":vector")) or "otherwise than" in i[2] or
                    i[1] == "v%d:%s" % (v, r.name)]
            rep.items += kept


# ------------------------------------------------------------------ C22
def nodata(a):
    """type_id(T) == type_id(NoData)"""
    return a.op == "eq" and all(t.op == "type_id" for t in a.a) and any("NoData" in show(t, 3) for t in a.a)


def tname(t):
    """X when t is type_name(X) computed here"""
    t = uncast(t)
    while t.op in ("copy", "coll"):
        t = t.a[0]
    return t.a[0] if t.op == "type_name" else None


def holes(t, u, a, b):
    """t with a for hole and u with b for hole are the same function of one hole"""
    h = T("str", "\x00hole")
    return subst(t, {a: h}), subst(u, {b: h})


def after_path(f, x):
    """f is the name x without its module path, its type arguments kept: True, False or None"""
    if f is x:
        return True
    if f.op == "len":
        return False
    if f.op == "slice" and f.a[0] is x and (len(f.a) < 3 or f.a[2] is length(x)):
        names = [y for y in subterms(f.a[1]) if y.op == "call"]
        last = [y for y in names if y.a[0] in ("str::rfind",)]
        if len(last) == 1 and last[0].a[-1] is T("str", "::"):
            cut = last[0].a[-2]
            if cut is x:
                return False
            if cut.op == "slice" and any(y.op == "call" and y.a[0] == "str::find" and show(y.a[-1]).strip("'") in ("<", "60") for y in subterms(cut)):
                return True
        return None
    segs = [y for y in subterms(f) if y.op == "call" and y.a[0] in ("str::rsplit", "str::rsplit_terminator", "str::rsplit_once", "str::split", "str::rfind")]
    if segs and all(y.a[-2] is x for y in segs if len(y.a) > 3):
        return False
    return None


def nosite(t):
    """first elements of equal iterators are equal"""
    m = {}
    for x in subterms(t):
        if x.op == "next" and any(y.op == "call" and y.a[0].startswith("str::") for y in subterms(x)):
            m[x] = T("next", x.a[0], 0)
    return subst(t, m) if m else t


def name_guard(rep, w, g, ev, key, what, param, where, shorten, exempt=True):
    """each success result has type_name(param) equal to the name read"""
    oks = ok_results(g)
    seen = {}

    def compared(a):
        """the name here and one read are both in a"""
        ts = subterms(settle(g, ites(g, a)))
        return any(y.op == "type_name" and y.a[0] == param for y in ts) and any(y.op in ("readbytes", "field", "phi") for y in ts)

    def kind(a):
        if a in seen:
            return seen[a]
        r = None
        if a.op == "eq":
            ts = [settle(g, t) for t in a.a]
            for own, rd in ((ts[0], ts[1]), (ts[1], ts[0])):
                xs = [y for y in subterms(own) if y.op == "type_name" and y.a[0] == param]
                if not xs or any(y.op == "readbytes" for y in subterms(own)):
                    continue
                if not any(y.op in ("readbytes", "phi", "field") for y in subterms(rd)):
                    continue
                v = nosite(ev(settle(g, ites(g, rd))))
                o = nosite(ev(settle(g, ites(g, own))))
                if o is v:
                    r = after_path(o, T("type_name", param))
                    r = "exact" if o.op == "type_name" else "short" if r else "loose" if r is False else "?"
                elif any(y.op == "type_name" and y.a[0] != param for y in subterms(v)) and not unread(v):
                    r = None
                elif unread(v):
                    r = "?"
                else:
                    r = "loose"
        elif a.op == "call" and compared(a):
            r = "loose" if a.a[0].split("::")[-1] in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case") else "?"
        seen[a] = r
        return r

    def pred_of(kinds):
        def pred(k, y):
            if k != "fact":
                return False
            pol, a = y
            return pol and (exempt and nodata(a) or kind(a) in kinds)
        return pred
    good = ("exact", "short") if shorten else ("exact",)
    if not oks:
        rep.unk(key, "no success result", where)
        return
    if all(at_ok(g, p, pred_of(good)) for p, _ in oks):
        rep.ok(key, where, "%s equal on every success path%s" % (what, ", or no data" if exempt else ""))
        return
    for x in g.order:
        for pol, a in x.facts:
            kind(a)
    if all(at_ok(g, p, pred_of(good + ("?",))) for p, _ in oks):
        rep.unk(key, "how the %s is compared" % what, where)
    elif all(at_ok(g, p, pred_of(good + ("?", "loose"))) for p, _ in oks):
        rep.bad(key, "the %s asked and the one dumped are compared in part only" % what, where)
    elif all(at_ok(g, p, pred_of(good + ("?", "loose", "short"))) for p, _ in oks):
        rep.bad(key, "the %s asked and the one dumped are compared without the path" % what, where)
    else:
        odd = [a for x in g.order for pol, a in x.facts if a.op not in ("eq", "lt", "call") and compared(a)]
        if odd:
            rep.unk(key, "conditions on names not read: %s" % [show(a, 5) for a in odd[:3]], where)
        else:
            rep.bad(key, "succeeds without the %s asked being the one dumped" % what, where)


def head_items(d):
    """the description at the beginning of the graph file"""
    it = d.items[d.graph]
    last = max(i for i, e in enumerate(it) if isinstance(e, Ev) and any(y.op == "type_name" for y in subterms(e.value)))
    return {d.graph: it[:last + 1]}


def check_type(w, rep):
    """check_data_type is equality of the complete names"""
    b = w.fn("check_data_type", impl_of="DataMap")
    f = w.flow(b)
    wh = "%s:%d" % (b.file, b.line)
    fld = field_of_getter(w, "get_data_typename", "DataMap")
    for p, t in f.results():
        if t.op == "eq" and p is None:
            p = f.exit
        for q, x in f.alts_at(t):
            q = q or p

            def full(k, y, val):
                return k == "fact" and y[0] is val and y[1].op == "eq" and exact(y[1])

            def exact(a):
                return any(tname(i) is not None and j.op == "field" and j.a[0].op == "param" and j.a[1] == fld
                           for i, j in ((a.a[0], a.a[1]), (a.a[1], a.a[0])))
            if x.op == "eq" and exact(x):
                rep.ok("check:eq", wh, show(x, 5))
            elif x is TRUE:
                ok = f.holds_at(q, lambda k, y: full(k, y, True), 0)
                loose = any(a.op == "call" and a.a[0].split("::")[-1] in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case") and any(z.op == "type_name" for z in subterms(a))
                            for n in f.order for pol, a in n.facts)
                som = not loose and any(a.op not in ("eq",) and any(z.op == "type_name" for z in subterms(a)) for n in f.order for pol, a in n.facts)
                rep.tri(True if ok else None if som else False, "check:true", "accepts a type without its complete name being the dumped one", wh,
                        okmsg="only if the complete names are equal")
            elif x is FALSE:
                ok = f.holds_at(q, lambda k, y: full(k, y, False), 0)
                rep.tri(True if ok else None, "check:false", "refuses a type whose name may be the dumped one", wh)
            else:
                rep.unk("check", "result %s" % show(x, 6), wh)


def ty_params(w, d):
    """(T, D): the type parameters as they appear in the names written"""
    out = {}
    for e in flat_items(d.items[d.graph]):
        if e.value.op == "type_name":
            out[len(out)] = e.value.a[0]
    return [out[i] for i in sorted(out)]


@check("C22")
def c22(w, rep):
    try:
        d = Dump(w)
    except Unclear as e:
        rep.unk("writer", str(e))
        return
    names = ty_params(w, d)
    if len(names) != 2:
        rep.unk("writer", "the names written")
        return
    D, E = names
    for b in readers(w):
        wh = "%s:%d" % (b.file, b.line)
        try:
            r = Reload(w, d, b)
        except (Unclear, Mismatch) as e:
            rep.unk(b.name, str(e), wh)
            continue
        if r.bad:
            rep.unk(b.name, "the dump is not read back (C20)", wh)
            continue
        name_guard(rep, w, r.g, r.ev, b.name + ":type", "element type", E, wh, False)
        name_guard(rep, w, r.g, r.ev, b.name + ":distance", "distance", D, wh, True)
    m = w.fn("from_hnswdump", impl_of="DataMap")
    wh = "%s:%d" % (m.file, m.line)
    try:
        gk = d.graph
        x = first_read(w.flow(m), gk[0])
        r = Reload(w, d, m, items=head_items(d))
    except (Unclear, Mismatch) as e:
        rep.unk("map", str(e), wh)
    else:
        name_guard(rep, w, r.g, r.ev, "from_hnswdump:type", "element type", E, wh, False, exempt=False)
    check_type(w, rep)
