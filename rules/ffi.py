"""C29-C31: the C interface."""
import re
from . import check
from .common import *
from .norm import *
from .wire import settle
from .misc import verdict
from .compr import subst, skipped

TYS = ("f32", "f64", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "NoData")
WIDE = ("usize", "u64", "i64", "isize")
KEEPERS = ("forget", "leak", "into_raw", "into_raw_parts", "into_raw_parts_with_alloc")
I_, J_ = T("sym", "i"), T("sym", "j")


def exported(w):
    return sorted((b for b in w.prog.bodies.values() if b.no_mangle), key=lambda b: b.name)


def kinds(w, prefix):
    """[(body, element type announced)] of the exported functions named prefix_<type>"""
    out = []
    for b in exported(w):
        m = re.match(r"^%s_([A-Za-z0-9]+)$" % prefix, b.name)
        if m and m.group(1) in TYS:
            out.append((b, m.group(1)))
    return out


def stops(w):
    out = []
    for nm, im in (("load_hnsw", "HnswIo"), ("load_hnsw_with_dist", "HnswIo"), ("new", "Hnsw"), ("load_description", None),
                   ("new", "HnswIo")):
        b = w.fn_opt(nm, impl_of=im)
        if b is not None:
            out.append(b.id)
    return out


# ---------------------------------------------------------------- sequences
class Seq:
    """n elements, the i-th being at(i); loose: something in it could not be read; bad: it is known to be altered"""

    def __init__(self, n, at, loose=(), bad=()):
        self.n, self.at, self.loose, self.bad = n, at, tuple(loose), tuple(bad)


def plain(t):
    """casts between the integers of the width of a pointer, and casts of pointers keeping the pointed type"""
    while True:
        if t.op == "cast" and t.a[0] in WIDE and t.a[1].op != "float":
            t = t.a[1]
        elif t.op in ("borrow", "refto"):
            t = t.a[0]
        elif t.op == "ptrcast":
            t = t.a[1]
        else:
            return t


class Reader:
    def __init__(self, f):
        self.f = f
        self.memo = {}

    def altered(self, t):
        """how the collection t is changed after its creation, other than by growing"""
        out = []
        for n in self.f.order:
            if n.call is not None and n.call.args and n.call.args[0] is t:
                m = mname(n)
                if m in SHRINK or m in SORTS or m in ("reverse", "swap", "fill", "rotate_left", "rotate_right", "shuffle"):
                    out.append(m)
                elif m in GROW and t.op != "new":
                    out.append(m)
            for pl, v in n.stores:
                if pl.op == "index" and pl.a[0] is t:
                    out.append("overwriting an element")
        return out

    def seq(self, t, depth=0):
        """the sequence t as a Seq, None when it is not one known"""
        f = self.f
        t = plain(t)
        if depth > 12:
            return None
        o = t.op
        if o in ("copy", "coll", "copied", "prot", "chainx"):
            s = self.seq(t.a[0], depth + 1)
            if s is not None:
                ch = self.altered(t)
                if ch:
                    s = Seq(s.n, s.at, s.loose, s.bad + tuple(ch))
            return s
        if o == "rawslice":
            p, n = plain(t.a[0]), self.num(t.a[1], depth)
            return Seq(n, lambda i: T("index", T("mem", self.val(p, depth + 1)), i))
        if o == "agg" and t.a[0] in ("Range", "RangeInclusive"):
            lo, hi = self.num(agg_get(t, "start"), depth), self.num(agg_get(t, "end"), depth)
            if t.a[0] == "RangeInclusive":
                hi = binop("Add", hi, I(1))
            if lo is I(0):
                return Seq(hi, lambda i: i)
            return Seq(binop("Sub", hi, lo), lambda i: binop("Add", lo, i))
        if o == "map":
            s = self.seq(t.a[0], depth + 1)
            if s is None:
                return None
            site = t.a[2] if len(t.a) > 2 else None
            v, src = t.a[1], t.a[0]
            return Seq(s.n, lambda i: self.val(subst(v, self.bind(src, site, s.at(i))), depth + 1), s.loose, s.bad)
        if o == "enum":
            s = self.seq(t.a[0], depth + 1)
            return s and Seq(s.n, lambda i: agg("tuple", ("0", "1"), (i, s.at(i))), s.loose, s.bad)
        if o == "zip":
            a, b = self.seq(t.a[0], depth + 1), self.seq(t.a[1], depth + 1)
            if a is None or b is None:
                return None
            # an open range has the length of the other
            n = a.n if a.n is b.n else b.n if a.n is None else a.n if b.n is None else T("min", *sorted((a.n, b.n), key=lambda x: x.id))
            return Seq(n, lambda i: agg("tuple", ("0", "1"), (a.at(i), b.at(i))), a.loose + b.loose, a.bad + b.bad)
        if o == "rev":
            s = self.seq(t.a[0], depth + 1)
            return s and Seq(s.n, s.at, s.loose, s.bad + ("taken in reverse",))
        if o in ("skip", "take", "filter", "filtermap", "stepby", "takewhile"):
            s = self.seq(t.a[0], depth + 1)
            if s is not None and o == "take" and self.num(t.a[1], depth) is s.n:
                return s
            return s and Seq(s.n, s.at, s.loose, s.bad + ("reduced by " + o,))
        if o == "slice":
            s = self.seq(t.a[0], depth + 1)
            if s is None:
                return None
            if t.a[1] is I(0) and self.num(t.a[2], depth) is s.n:
                return s
            return Seq(s.n, s.at, s.loose, s.bad + ("reduced to a part",))
        if o == "sorted":
            s = self.seq(t.a[0], depth + 1)
            return s and Seq(s.n, s.at, s.loose + ("sorted",), s.bad)
        if o == "new" and t.a[0] in ("Vec", "VecDeque"):
            return self.built(t, depth)
        if o in ("call", "index", "field", "param", "elem", "sym", "pay"):
            x = self.val(t, depth + 1) if o in ("index", "elem", "pay") else t
            if x is not t:
                s = self.seq(x, depth + 1)
                if s is not None:
                    return s
            ch = self.altered(t)
            return Seq(T("len", x), lambda i: T("index", x, i), (), ch)
        return None

    def bind(self, src, site, v):
        m = {}
        if site is not None:
            m[T("elem", src, site)] = v
        e = elem(src, site) if site is not None else None
        if e is not None and e not in m and e.op not in ("agg",):
            m[e] = v
        if e is not None and e.op == "agg" and v.op == "agg":
            # the parts of an element of a zip or an enumeration
            for k, x in zip(e.a[1], e.a[2:]):
                y = agg_get(v, k)
                if y is not None and isinstance(x, Term) and x.op in ("elem", "pos", "index", "next"):
                    m[x] = y
        return m

    def built(self, t, depth):
        """a vector filled by a loop"""
        f = self.f
        ev = [n for n in events(f, t)]
        grow = [n for n in ev if mname(n) in GROW]
        bad = [mname(n) for n in ev if n not in grow] + [x for x in self.altered(t) if x not in [mname(n) for n in ev]]
        if not grow:
            return Seq(I(0), lambda i: T("undef"), (), bad)
        if len(grow) > 1:
            return None
        g = grow[0]
        m = mname(g)
        cre = node_by_id(f, t.a[1])
        around = {s for _, s in loop_nexts(f, cre)} if cre is not None else set()
        loops = [(it, s) for it, s in loop_nexts(f, g) if s not in around]
        if m in ("extend", "append", "extend_from_slice") and not loops:
            s = self.seq(g.call.args[1], depth + 1)
            return s and Seq(s.n, s.at, s.loose, s.bad + tuple(bad))
        if m in ("push", "push_back") and len(loops) == 1:
            it, site = loops[0]
            s = self.seq(it, depth + 1)
            if s is None:
                return None
            why = skipped(f, site, g)
            if why:
                bad.append(why)
            v = g.call.args[1]
            return Seq(s.n, lambda i: self.val(subst(v, self.bind(it, site, s.at(i))), depth + 1), s.loose, s.bad + tuple(bad))
        return None

    def num(self, t, depth=0):
        """a count, resolved"""
        t = plain(t)
        if t.op == "len":
            s = self.seq(t.a[0], depth + 1)
            if s is not None and s.n is not t and not s.loose and not s.bad:
                return self.num(s.n, depth + 1) if depth < 12 else s.n
            if s is not None and s.bad:
                return T("len", T("altered", t.a[0]))
            return T("len", self.val(t.a[0], depth + 1))
        return self.val(t, depth + 1)

    def val(self, t, depth=0):
        """a value, element accesses being resolved"""
        t = plain(t)
        if depth > 12 or not any(isinstance(x, Term) for x in t.a):
            return t
        o = t.op
        if o == "pay" and t.a[0].op in ("get", "mapget") and len(t.a[0].a) == 2:
            t = T("index", t.a[0].a[0], t.a[0].a[1])
            o = "index"
        if o == "index":
            i = self.num(t.a[1], depth + 1)
            s = self.seq(t.a[0], depth + 1) if t.a[0].op not in ("index", "mem", "sym", "call", "param") else None
            if s is not None and not s.bad and not s.loose:
                return s.at(i)
            if s is not None and s.bad:
                return T("index", T("altered", self.val(t.a[0], depth + 1)), i)
            return T("index", self.val(t.a[0], depth + 1), i)
        if o == "len":
            return self.num(t, depth + 1)
        if o in ("new", "coll", "copy", "rawslice", "map", "zip"):
            return t
        if o == "field":
            b = self.val(t.a[0], depth + 1)
            if b.op == "agg":
                v = agg_get(b, t.a[1])
                if v is not None:
                    return self.val(v, depth + 1)
            return T("field", b, t.a[1])
        if o in ("agg", "bin", "pay", "mem", "ptr"):
            return T(o, *[self.val(x, depth + 1) if isinstance(x, Term) else x for x in t.a])
        return t


READ = ("param", "int", "sym", "index", "mem", "bin", "field", "len", "agg", "min", "max", "cast", "str", "ptr", "satsub", "altered",
        "float", "neg", "pay", "slice", "rawslice", "copy", "null", "ptrcast")


def readable(t):
    """made of what is given and of what the index answers"""
    if t.op == "call":
        return t.a[0].startswith(("AnnT::", "Hnsw::", "f32::", "f64::")) or (t.a[0].startswith(("str::", "String::", "Cow::")) and all(readable(x) for x in t.a if isinstance(x, Term)))
    if t.op == "altered":
        return True
    return t.op in READ and all(readable(x) for x in t.a if isinstance(x, Term))


def want(r, got, expected):
    """True/False/None"""
    if got is expected:
        return True
    if got.op == "phi" and any(x is expected for x in r.f.alts(got)):
        # what is given, or something else in its place
        for q, x in r.f.alts_at(got):
            x = r.num(x)
            if x is expected:
                continue
            if x.op != "int" and not (x.op in ("bin", "len", "min", "max", "satsub") and readable(x)):
                return None
            known = [y for pol, y in (r.f.facts_at(q) if q is not None else ()) if y.op == "eq" and pol and x in y.a and expected in y.a]
            if not known and q is not None:
                return False
        return None
    return False if readable(got) else None


def seq_is(r, t, n, item, inner=None):
    """t holds n elements, the i-th being item(i) -> (True|False|None, message). inner: each is a sequence (n, item)"""
    s = r.seq(t)
    if s is None:
        return None, "not understood: %s" % show(t, 6)
    if s.bad:
        return False, "altered on the way: %s" % ", ".join(s.bad)
    if s.loose:
        return None, "not understood: %s" % ", ".join(s.loose)
    cn = r.num(s.n) if s.n is not None else None
    if cn is None:
        return None, "count not understood"
    ns = n if isinstance(n, (list, tuple)) else [n]
    v = True if cn in ns else want(r, cn, ns[0])
    if v is not True:
        return v, "the number of elements is %s instead of %s" % (show(cn, 6), show(ns[0], 6))
    x = s.at(I_)
    if inner is None:
        x = r.val(x)
        v = want(r, x, item(I_))
        return v, "" if v else "element i is %s instead of %s" % (show(x, 6), show(item(I_), 6))
    return inner(r, x)


def no_call_ok(f, p):
    """a path giving up on a null pointer"""
    return any(pol and a.op == "call" and a.a[0].split("::")[-1] in ("is_null",) or (pol and a.op == "eq" and any(x.op == "null" or (x.op == "call" and x.a[0].startswith("ptr::null")) for x in a.a))
               for pol, a in f.facts_at(p))


def opaque_calls(f, *names):
    return [n for n in f.order if n.call is not None and n.call.name.split("::")[-1] in names]


def exactly_once(rep, f, ns, key, what):
    """exactly one of the nodes ns is executed in each call, once"""
    for n in ns:
        if any(m in f.reach(n.succ) for m in ns):
            rep.bad(key, "%s can be done several times" % what, n.where)
            return
    stop = lambda z: z in ns
    if f.exit in f.reach([f.entry], stop=stop):
        nulls = [a for x in f.order if x.facts and f.exit in f.reach([x], stop=stop) for pol, a in x.facts if "null" in show(a, 6)]
        rep.tri(None if nulls else False, key, "%s can be skipped" % what, ns[0].where)
        return
    rep.ok(key, ns[0].where)


def pointee(w, ti):
    t = w.prog.types[ti]
    return w.prog.ts(t["to"]) if t["k"] in ("ptr", "ref") else None


# ---------------------------------------------------------------- C29
def api_call(rep, w, f, b, method):
    cs = [n for n in f.order if n.call is not None and n.call.name == "AnnT::" + method]
    if not cs:
        others = [n for n in f.order if n.call is not None and n.call.name.startswith("AnnT::")]
        if others:
            rep.bad(b.name, "calls %s instead of %s" % (", ".join(sorted({n.call.name for n in others})), method), others[0].where)
        elif not any(n.call is not None and n.call.name.startswith("<indirect>") for n in f.order):
            rep.tri(None if any("Hnsw" in n.call.name for n in f.order if n.call is not None) else False, b.name, "never calls %s" % method, "%s:%s" % (b.file, b.line))
        else:
            rep.unk(b.name, "no call of %s" % method, "%s:%s" % (b.file, b.line))
        return []
    exactly_once(rep, f, cs, b.name + " (one call)", method)
    for n in cs:
        r, names = peel_field(n.call.args[0])
        rep.tri(True if r is P(1) and names else (False if r.op == "param" else None), b.name + " (index)", "the index used is %s" % show(n.call.args[0], 4), n.where)
    return cs


def P(i):
    return T("param", i)


def mem(p, i):
    return T("index", T("mem", p), i)


def vectors(ptrs, nb, ln):
    """the i-th of nb vectors holds the ln elements at ptrs[i]"""
    def inner(r, x):
        return seq_is(r, x, ln, lambda j: mem(mem(ptrs, I_), j))
    return inner


def pairs(r, t, ids, ptrs, nb, ln):
    def inner(r, x):
        x = r.val(x)
        if x.op != "agg" or len(x.a) != 4:
            return None, "not understood: %s" % show(x, 6)
        a, i = x.a[2], x.a[3]
        v = want(r, r.val(i), mem(ids, I_))
        if v is not True:
            return v, "vector i is given the id %s" % show(r.val(i), 6)
        return vectors_at(r, a, ptrs, ln)
    return seq_is(r, t, nb, None, inner)


def vectors_at(r, x, ptrs, ln):
    s = r.seq(x)
    if s is None:
        return None, "not understood: %s" % show(x, 6)
    if s.bad:
        return False, "altered on the way: %s" % ", ".join(s.bad)
    cn, e = r.num(s.n), r.val(s.at(J_))
    v = want(r, cn, ln)
    if v is not True:
        return v, "the length of vector i is %s" % show(cn, 6)
    v = want(r, e, mem(mem(ptrs, I_), J_))
    return v, "" if v else "element j of vector i is %s" % show(e, 6)


def roles(w, adt):
    """(field holding a number, field holding a pointer) or (id, distance)"""
    out = {}
    for nm, ti, vis in adt.fields:
        t = w.prog.types[ti]
        out["ptr" if t["k"] == "ptr" else "d" if t["s"] == "f32" else "n"] = nm
    return out


def neighbours_at(w, r, x, src):
    """x is a pair (count, pointer) giving the neighbours of src in order"""
    nb = roles(w, w.adt("Neighbourhood_api"))
    x = x if x.op == "agg" else r.val(x)
    if x.op != "agg" or agg_get(x, nb["n"]) is None:
        return None, "not understood: %s" % show(x, 5)
    cnt = r.num(agg_get(x, nb["n"]))
    v = want(r, cnt, T("len", src))
    if v is not True:
        return v, "the count given with the neighbours is %s" % show(cnt, 6)
    p = plain(agg_get(x, nb["ptr"]))
    if p.op != "ptr":
        return None, "the pointer given is %s" % show(p, 5)
    na = roles(w, w.adt("Neighbour_api"))
    s = r.seq(p.a[0])
    if s is None:
        return None, "not understood: %s" % show(p.a[0], 6)
    if s.bad:
        return False, "the neighbours are altered on the way: %s" % ", ".join(s.bad)
    if s.loose:
        return None, "not understood: %s" % ", ".join(s.loose)
    v = want(r, r.num(s.n), T("len", src))
    if v is not True:
        return v, "the number of neighbours given is %s" % show(r.num(s.n), 6)
    e = r.val(s.at(J_))
    if e.op != "agg":
        return None, "not understood: %s" % show(e, 5)
    for k, fl in (("n", "id"), ("d", "d")):
        g = r.val(agg_get(e, na[k])) if agg_get(e, na[k]) is not None else None
        exp = T("field", T("index", src, J_), w.nf[fl])
        if g is not exp:
            return (False if g is not None and readable(g) else None), "the %s of neighbour j is given as %s" % ("id" if k == "n" else "distance", show(g, 6) if g is not None else "?")
    return True, ""


def owns(t, x):
    """x is a part of the value t, and not only pointed to"""
    return t is x or (t.op in ("agg", "with") and any(owns(y, x) for y in t.a if isinstance(y, Term)))


def owners(x):
    """x and the values it is a field of"""
    out = [x]
    while x.op in ("field", "pay"):
        x = x.a[0]
        out.append(x)
    return out


def kept(rep, w, f, b):
    """what a pointer handed over points to outlives the call"""
    names = ("Neighbourhood_api", "Vec_api", "DescriptionFFI")
    done = set()
    last = [(p if p is not None else f.exit, x) for p, t in f.results() for x in subterms(t) if x.op == "agg"]
    for n, aggs in [(n, list(n.aggs or ()) + [v for _, v in n.stores if isinstance(v, Term)] +
                     [x for y in (n.call.args if n.call is not None else ()) for x in subterms(y) if x.op == "agg"]) for n in f.order] + \
            [(n, [x]) for n, x in last]:
        for a in aggs:
            for x in ([a] if a.op != "agg" else [plain(y) for y in a.a[2:] if isinstance(y, Term)] if a.a[0] in names else []):
                x = plain(x)
                if x.op != "ptr" or x.a[0] in done or x.a[0].op == "agg":
                    continue
                src = x.a[0]
                done.add(src)
                keep = [c for c in f.order if c.call is not None and c.call.name.split("::")[-1] in KEEPERS + ("new",) and
                        (c.call.name.split("::")[-1] != "new" or c.call.name.startswith("ManuallyDrop")) and
                        any(owns(y, z) or owns(settle(f, y), z) for y in c.call.args for z in owners(settle(f, src)) + owners(src))]
                live = [c for c in keep if c.call.name.startswith(("mem::", "Vec::", "Box::", "String::", "ManuallyDrop::", "CString::", "slice::"))]
                rep.tri(True if live else (None if src.op in ("param", "phi") else False), "%s (memory handed over)" % b.name,
                        "the memory of %s is released when the function returns while a pointer to it is handed over" % show(src, 4), n.where)
                if live:
                    still_there(rep, f, b, src, live)
    return len(done)


MOVES = ("push", "push_back", "extend", "extend_from_slice", "append", "reserve", "reserve_exact", "shrink_to_fit", "shrink_to", "insert", "resize", "resize_with", "into_boxed_slice")


def still_there(rep, f, b, src, live):
    """on every way from the taking of the pointer the memory is kept, and does not move before"""
    made = [c for c in f.order if c.call is not None and c.call.args and c.call.name.split("::")[-1] in ("as_ptr", "as_mut_ptr") and
            (c.call.args[0] is src or settle(f, c.call.args[0]) is settle(f, src))]
    if len(made) != 1:
        return
    m = made[0]
    key = "%s (memory kept on every way)" % b.name
    fresh = node_by_id(f, src.a[1]) if src.op == "new" else None
    if not any(f.dominates(c, m) for c in live):
        away = f.reach(list(m.succ), lambda z: z in live)
        lost = [z for z in away if z is f.exit or z.kind in ("return", "exit")] if f.exit not in live else []
        one = len([p for p, t in f.results()]) == 1
        rep.tri(True if not lost else (False if one else None), key, "the memory of %s is released on some way to the return while a pointer to it is handed over" % show(src, 4), m.where)
    if fresh is not None:
        after = f.reach(list(m.succ), lambda z: z is fresh)
        mv = [z for z in after if z.call is not None and z.call.name.startswith("Vec::") and mname(z) in MOVES and z.call.args and z.call.args[0] is src]
        if mv:
            rep.bad(key, "%s moves the memory of %s after a pointer to it was taken" % (mname(mv[0]), show(src, 4)), mv[0].where)


@check("C29")
def c29(w, rep):
    st = stops(w)
    total = 0
    for b, ty in kinds(w, "insert"):
        f = w.flow(b, stop=st, key="c29")
        total += 1
        r = Reader(f)
        for n in api_call(rep, w, f, b, "insert_data"):
            v, msg = seq_is(r, n.call.args[1], P(2), lambda i: mem(P(3), i))
            rep.tri(v, b.name + " (vector)", msg, n.where)
            i = r.num(n.call.args[2])
            rep.tri(want(r, i, P(4)), b.name + " (id)", "the vector is inserted under the id %s" % show(i, 5), n.where)
    rep.count("insert_ functions", total, 5)
    total = 0
    for b, ty in kinds(w, "parallel_insert"):
        f = w.flow(b, stop=st, key="c29")
        total += 1
        for n in api_call(rep, w, f, b, "parallel_insert_data"):
            v, msg = pairs(Reader(f), n.call.args[1], P(5), P(4), P(2), P(3))
            rep.tri(v, b.name + " (vectors and ids)", msg, n.where)
    rep.count("parallel_insert_ functions", total, 5)
    total = 0
    for b, ty in kinds(w, "search_neighbours"):
        f = w.flow(b, stop=st, key="c29")
        total += 1
        ns = api_call(rep, w, f, b, "search_neighbours")
        if len(ns) != 1:
            if ns:
                rep.unk(b.name, "%d calls of search_neighbours" % len(ns), ns[0].where)
            continue
        n = ns[0]
        r = Reader(f)
        v, msg = seq_is(r, n.call.args[1], P(2), lambda i: mem(P(3), i))
        rep.tri(v, b.name + " (vector)", msg, n.where)
        for k, i, what in ((2, 4, "number of neighbours"), (3, 5, "width of the search")):
            x = r.num(n.call.args[k])
            rep.tri(want(r, x, P(i)), b.name + " (%s)" % what, "the %s asked for is %s" % (what, show(x, 5)), n.where)
        answers(rep, w, f, b, n, lambda rr, t: neighbours_at(w, rr, t, n.call.dest))
        kept(rep, w, f, b)
    rep.count("search_neighbours_ functions", total, 5)
    total = 0
    for b, ty in kinds(w, "parallel_search_neighbours"):
        f = w.flow(b, stop=st, key="c29")
        total += 1
        ns = api_call(rep, w, f, b, "parallel_search_neighbours")
        if len(ns) != 1:
            if ns:
                rep.unk(b.name, "%d calls of parallel_search_neighbours" % len(ns), ns[0].where)
            continue
        n = ns[0]
        r = Reader(f)
        v, msg = seq_is(r, n.call.args[1], P(2), None, vectors(P(4), P(2), P(3)))
        rep.tri(v, b.name + " (vectors)", msg, n.where)
        for k, i, what in ((2, 5, "number of neighbours"), (3, 6, "width of the search")):
            x = r.num(n.call.args[k])
            rep.tri(want(r, x, P(i)), b.name + " (%s)" % what, "the %s asked for is %s" % (what, show(x, 5)), n.where)
        res = n.call.dest
        va = roles(w, w.adt("Vec_api"))

        def whole(rr, t):
            if t.op != "agg" or agg_get(t, va["n"]) is None:
                return None, "not understood: %s" % show(t, 5)
            c = rr.num(agg_get(t, va["n"]))
            ok = c is P(2) or c is T("len", res)
            if not ok:
                return (False if readable(c) else None), "the number of answers is given as %s" % show(c, 6)
            p = plain(agg_get(t, va["ptr"]))
            if p.op != "ptr":
                return None, "the pointer given is %s" % show(p, 5)
            return seq_is(rr, p.a[0], (T("len", res), P(2)), None, lambda q, x: neighbours_at(w, q, x, T("index", res, I_)))
        answers(rep, w, f, b, n, whole)
        kept(rep, w, f, b)
    rep.count("parallel_search_neighbours_ functions", total, 5)
    glue(rep, w)


def answers(rep, w, f, b, n, judge):
    for p, t in f.results():
        t = plain(t)
        at = p.where if p is not None else n.where
        if t.op != "ptr":
            nul = t.op == "null" or (t.op in ("call", "int") and "null" in show(t, 3))
            skipped_ = nul and any("null" in show(a, 6) for _, a in (f.facts_at(p) if p is not None else ()))
            rep.tri(False if nul and not skipped_ else None, b.name + " (answer)", "the answer is %s" % show(t, 4), at)
            continue
        v, msg = judge(Reader(f), t.a[0])
        rep.tri(v, b.name + " (answer)", msg, at)


def glue(rep, w):
    """AnnT for Hnsw hands everything over to the index"""
    def impl(nm):
        b = w.fn_opt(nm, impl_of="Hnsw", trait="AnnT")
        return b
    inner = {"insert_data": ("insert", "insert_slice"), "search_neighbours": ("search", "search_filter", "search_possible_filter"),
             "parallel_insert_data": ("parallel_insert", "insert", "insert_slice"), "parallel_search_neighbours": ("parallel_search",)}
    for nm, to in inner.items():
        b = impl(nm)
        if b is None:
            rep.bad("AnnT::" + nm, "the implementation of AnnT for Hnsw has disappeared")
            continue
        st = [x.id for x in (w.fn_opt(t, impl_of="Hnsw") for t in to + ("parallel_insert_slice",)) if x is not None]
        f = w.flow(b, stop=st, key="c29")
        key = "AnnT::%s for Hnsw" % nm
        cs = [n for n in f.order if n.call is not None and n.call.name.startswith("Hnsw::") and mname(n) in to]
        wh = "%s:%s" % (b.file, b.line)
        if len(cs) != 1:
            rep.tri(False if not cs and not any(n.call is not None and n.call.name.startswith("Hnsw::") or n.ctx.parent is not None for n in f.order) else None, key, "%d calls of %s" % (len(cs), "/".join(to)), wh)
            continue
        n = cs[0]
        r = Reader(f)
        a = n.call.args
        rep.tri(want(r, plain(a[0]), P(1)), key + " (index)", "done on %s" % show(a[0], 4), n.where)
        if nm == "insert_data":
            exactly_once(rep, f, [n], key + " (one call)", mname(n))
            t = a[1]
            v = None
            if t.op == "agg" and len(t.a) == 4:
                x, i = t.a[2], t.a[3]
                v = whole_of(r, x, P(2))
                if v is not False:
                    v = want(r, i, P(3)) if v or not want(r, i, P(3)) else None
            rep.tri(v, key + " (arguments)", "inserts %s" % show(t, 5), n.where)
        elif nm == "parallel_insert_data":
            if mname(n) == "parallel_insert":
                exactly_once(rep, f, [n], key + " (one call)", mname(n))
                rep.tri(whole_of(r, a[1], P(2)), key + " (arguments)", "inserts %s" % show(a[1], 5), n.where)
            else:
                lp = loop_nexts(f, n)
                e = a[1]
                v = None
                if len(lp) == 1 and lp[0][0] is P(2) and not skipped(f, lp[0][1], n):
                    el = elem(lp[0][0], lp[0][1])
                    if e is el or (e.op == "agg" and len(e.a) == 4 and e.a[2] is T("field", el, "0") and e.a[3] is T("field", el, "1")):
                        v = True
                rep.tri(v, key + " (arguments)", "inserts %s" % show(e, 5), n.where)
        else:
            rep.tri(whole_of(r, a[1], P(2)), key + " (vector)", "searches %s" % show(a[1], 5), n.where)
            if len(a) > 4:
                rep.tri(True if isok(a[4]) is FALSE else False if isok(a[4]) is TRUE else None, key + " (filter)", "searches with a filter nobody asked for", n.where)
            for k in (2, 3):
                rep.tri(want(r, r.num(a[k]), P(k + 1)), key + (" (number)" if k == 2 else " (width)"), "given %s" % show(a[k], 5), n.where)
            for p, t in f.results():
                v = True if t is n.call.dest else None
                if v is None:
                    s = r.seq(t)
                    if s is not None:
                        if s.bad:
                            v = False
                        elif r.num(s.n) is T("len", n.call.dest) and r.val(s.at(I_)) is T("index", n.call.dest, I_):
                            v = True
                rep.tri(v, key + " (result)", "returns %s" % show(t, 5), p.where if p is not None else wh)


def whole_of(r, t, p):
    t = plain(t)
    if t is p:
        return True
    s = r.seq(t)
    if s is None or s.loose:
        return None
    if s.bad:
        return False
    n, x = r.num(s.n), r.val(s.at(I_))
    if n is T("len", p) and x is T("index", p, I_):
        return True
    return False if readable(n) and readable(x) else None


# ---------------------------------------------------------------- C30
def short_name(s):
    s = s.split("<")[0]
    return s.split("::")[-1]


def same_dist(a, b):
    return re.sub("^Dist", "", a) == re.sub("^Dist", "", b)


def api_val(w, b):
    """element type of the index behind the api type returned or taken by b"""
    for ti in [b.locals[0]] + list(b.locals[1:b.argc + 1]):
        p = w.prog.adt_of(ti)
        a = w.prog.adts.get(p) if p else None
        if a is None or not a.local:
            continue
        for nm, fi, vis in a.fields:
            m = re.search(r"Val\s*=\s*([\w:]+)", w.prog.ts(fi))
            if m:
                return short_name(m.group(1))
    return None


def announced(name):
    """(kind, element type, distance) announced by an exported name"""
    m = re.match(r"^load_hnswdump_([A-Za-z0-9]+)_(\w+)$", name)
    if m:
        return "load", m.group(1), m.group(2)
    m = re.match(r"^init_hnsw_ptrdist_([A-Za-z0-9]+)$", name)
    if m:
        return "ptr", m.group(1), "DistCFFI"
    m = re.match(r"^(?:init|new)_hnsw_([A-Za-z0-9]+)$", name)
    if m:
        return "name", m.group(1), None
    m = re.match(r"^(?:insert|parallel_insert|search_neighbours|parallel_search_neighbours|file_dump|drop_hnsw)_([A-Za-z0-9]+)$", name)
    if m:
        return "use", m.group(1), None
    return None


def index_of(t):
    """what is put in the api structure whose address is t"""
    t = plain(t)
    if t.op != "ptr" or t.a[0].op != "agg":
        return None
    vs = [x for x in t.a[0].a[2:] if isinstance(x, Term)]
    return vs[0] if len(vs) == 1 else None


def cases(f):
    """[(node, value)] of the results, choices made in helpers being followed"""
    return [(p, settle(f, t)) for p, t in f.results()]


def is_null(t):
    t = plain(t)
    return t.op == "null" or (t.op == "call" and t.a[0] in ("ptr::null", "ptr::null_mut")) or t is I(0)


def made_at(f, t):
    """the node of the call giving t"""
    if t.op == "pay":
        t = t.a[0]
    if t.op != "call" or not isinstance(t.a[1], int):
        return None
    return node_by_id(f, t.a[1])


def type_args(f, n):
    fn = n.call.fn or {}
    a = fn.get("rargs") or fn.get("args") or []
    return [f.type_str(n.ctx, x) for x in a]


def the_name(t, lenp, ptrp):
    """t is the whole name given by the caller"""
    t = plain(t)
    while t.op in ("call", "pay", "copy") and not (t.op == "call" and len(t.a) < 3):
        if t.op == "call":
            if t.a[0].split("::")[-1] not in ("from_utf8_lossy", "from_utf8", "from_utf8_unchecked", "to_string", "as_str"):
                return False
            t = plain(t.a[2])
        else:
            t = plain(t.a[0])
    return t.op == "rawslice" and plain(t.a[0]) is ptrp and plain(t.a[1]) is lenp


def text(t):
    if t.op == "str":
        return t.a[0]
    if t.op == "bytes":
        try:
            return bytes.fromhex(t.a[0]).decode()
        except Exception:
            return None
    return None


def names_known(f, p):
    """(names the caller's is known to equal, atoms comparing it otherwise) at p"""
    eqs, loose = set(), []
    for pol, a in (f.facts_at(p) if p is not None else ()):
        if a.op == "eq":
            for i in (0, 1):
                s = text(a.a[i])
                if s is not None and pol and the_name(a.a[1 - i], P(3), P(4)):
                    eqs.add(s)
                elif s is not None and pol:
                    loose.append(a)
        elif pol and any(x.op == "rawslice" for x in subterms(a)) and a.op == "call":
            loose.append(a)
    return eqs, loose


CHANGES = ("trim", "trim_end", "trim_start", "trim_matches", "trim_end_matches", "trim_start_matches", "to_lowercase", "to_uppercase",
           "to_ascii_lowercase", "to_ascii_uppercase")


def part_of_name(f, a):
    """compares a part of the name, or a changed name, which other names share"""
    todo, seen = [a], set()
    while todo:
        x = todo.pop()
        if x in seen or len(seen) > 400:
            continue
        seen.add(x)
        todo += f.alts(x) if x.op == "phi" else [y for y in x.a if isinstance(y, Term)]
        if x.op == "agg":
            todo += [y for y in x.a[2:] if isinstance(y, Term)]
        if x.op == "call" and x.a[0].split("::")[-1] in CHANGES:
            return True
        if x.op == "slice" and x.a[1] is I(0) and any(y.op == "rawslice" for y in subterms(x.a[0])):
            return True
        if x.op == "call" and x.a[0] in ("str::get", "slice::get") and x.a[-1].op == "agg" and x.a[-1].a[0] in ("RangeTo", "RangeToInclusive"):
            return True
        if x.op == "getslice" and x.a[1] is I(0):
            return True
    return False


@check("C30")
def c30(w, rep):
    st = stops(w)
    new = w.fn("new", impl_of="Hnsw")
    nfun = nnames = 0
    for b in exported(w):
        an = announced(b.name)
        if an is None:
            continue
        kind, ty, dist = an
        wh = "%s:%s" % (b.file, b.line)
        nfun += 1
        val = api_val(w, b)
        rep.tri(None if val is None else val == ty, b.name + " (element type)", "works on an index of %s" % val, wh)
        if kind == "use":
            # the pointers to elements taken by the function
            for ti in b.locals[1:b.argc + 1]:
                x, depth = ti, 0
                while w.prog.types[x]["k"] == "ptr":
                    x, depth = w.prog.types[x]["to"], depth + 1
                s = w.prog.ts(x)
                if depth and s in TYS and not (s == "usize" and ty != "usize") and not (b.name.startswith("file_dump") and s == "u8"):
                    rep.req(s == ty, b.name + " (pointer)", "takes a pointer to %s" % s, wh)
            f = w.flow(b, stop=st, key="c29")
            for x in casts(f):
                src, dst = x
                rep.req(src == dst, b.name + " (cast)", "elements of type %s are read as %s" % (src, dst), wh)
            continue
        f = w.flow(b, stop=st, key="c29")
        for p, t in cases(f):
            at = p.where if p is not None else wh
            if is_null(t):
                if kind == "name":
                    eqs, loose = names_known(f, p)
                    rep.tri(not eqs, b.name + " (null)", "the name %s is known and gives null" % ", ".join(sorted(eqs)), at)
                elif kind == "ptr":
                    rep.tri(None if any("null" in show(a, 5) for _, a in (f.facts_at(p) if p else ())) else False, b.name + " (null)", "gives null", at)
                continue
            x = index_of(t)
            n = made_at(f, x) if x is not None else None
            if n is None or n.call is None:
                rep.unk(b.name + " (index)", "the index given is %s" % (show(x, 5) if x is not None else show(t, 5)), at)
                continue
            ta = type_args(f, n)
            ta = [short_name(s) for s in ta]
            cname = n.call.name
            if kind == "load":
                if cname not in ("HnswIo::load_hnsw", "HnswIo::load_hnsw_with_dist") or len(ta) < 2:
                    rep.unk(b.name + " (index)", "the index comes from %s" % cname, n.where)
                    continue
                r0, nm0 = peel_field(plain(n.call.args[0]))
                rep.tri(True if r0 is P(1) and not nm0 else (False if readable(n.call.args[0]) else None), b.name + " (reloader)", "reloads from %s" % show(n.call.args[0], 4), n.where)
                rep.req(ta[0] == ty, b.name + " (type)", "reloads an index of %s" % ta[0], n.where)
                rep.req(same_dist(ta[1], dist), b.name + " (distance)", "reloads with the distance %s" % ta[1], n.where)
                continue
            if cname != "Hnsw::new" or len(ta) < 2:
                rep.unk(b.name + " (index)", "the index comes from %s" % cname, n.where)
                continue
            rep.req(ta[0] == ty, b.name + " (type)", "builds an index of %s" % ta[0], n.where)
            a = [plain(y) for y in n.call.args]
            r = Reader(f)
            given = {0: (P(1), "number of connections"), 3: (P(2), "width of the construction")}
            if b.argc >= 6:
                given.update({1: (P(5), "maximum number of elements"), 2: (P(6), "number of layers")})
            for k, (e, what) in given.items():
                rep.tri(want(r, a[k], e), b.name + " (%s)" % what, "the %s is %s" % (what, show(a[k], 4)), n.where)
            if kind == "ptr":
                rep.req(ta[1] == "DistCFFI", b.name + " (distance)", "builds with the distance %s" % ta[1], n.where)
                ok = any(y is P(3) for y in subterms(a[4]))
                rep.tri(True if ok else (False if readable(a[4]) else None), b.name + " (function)", "the distance is %s" % show(a[4], 5), n.where)
                continue
            eqs, loose = names_known(f, p)
            if len(eqs) == 1 and not loose:
                s = next(iter(eqs))
                nnames += 1
                rep.req(same_dist(s, ta[1]), "%s(%s)" % (b.name, s), "the name %s builds an index with the distance %s" % (s, ta[1]), n.where)
            elif len(eqs) > 1:
                rep.unk(b.name + " (name)", "the name equals %s" % ", ".join(sorted(eqs)), at)
            elif not eqs and loose and all(y.op == "call" and y.a[0].split("::")[-1] in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case") for y in loose):
                rep.bad(b.name + " (name)", "an index is built for other names than the one accepted: the name is only known to satisfy %s" % ", ".join(show(y, 4) for y in loose), at)
            elif not eqs and not loose:
                fs = list(f.facts_at(p)) if p is not None else []
                def plain_fact(pol, z):
                    if any(y.op == "phi" for y in subterms(z)):
                        return False
                    if not pol:
                        return z.op in ("eq", "lt", "isok")
                    # tests on the number of bytes of the name
                    return z.op in ("eq", "lt") and any(y.op == "int" for y in z.a) and any(y.op == "len" and any(q.op == "rawslice" for q in subterms(y)) for y in z.a)
                clear = all(plain_fact(pol, z) for pol, z in fs)
                rep.tri(False if clear else None, b.name + " (name)", "an index with the distance %s is built whatever the name" % ta[1], at)
            elif not eqs and all(part_of_name(f, y) for y in loose):
                rep.bad(b.name + " (name)", "other names are accepted: only %s is compared" % ", ".join(show(y, 5) for y in loose), at)
            else:
                rep.unk(b.name + " (name)", "what is known of the name is not understood", at)
    rep.count("exported functions named after a type", nfun, 40)
    rep.count("distance names accepted", nnames, 20)


def casts(f):
    """[(from, to)] of the casts between pointers to elements of different types"""
    out = []
    seen = set()
    for n in f.order:
        for t in (list(n.call.args) if n.call is not None else []):
            for x in subterms(t):
                if x.op == "ptrcast" and x not in seen:
                    seen.add(x)
                    src = x.a[1]
                    while src.op == "ptrcast":
                        src = src.a[1]
                    m = re.match(r"^(?:\*(?:const|mut) )+(\w+)$", x.a[0])
                    if m and src.op == "param":
                        ti = f.root.locals[src.a[0]]
                        s = f.prog.ts(ti)
                        m2 = re.match(r"^(?:\*(?:const|mut) )+(\w+)$", s)
                        if m2:
                            out.append((m2.group(1), m.group(1)))
    return out


# ---------------------------------------------------------------- C31
def known_ok(f, p, call, pol):
    """the outcome of the call (of one of the calls) is known to be pol at p"""
    calls = call if isinstance(call, (list, tuple)) else (call,)

    def pred(k, y):
        return k == "fact" and y[0] == pol and y[1].op == "isok" and y[1].a[0] in calls
    return p is not None and f.holds_at(p, pred, 0, None)


def discarded(f, p, d):
    """is nothing given at p only because a filter did not want what was read"""
    def pred(k, y):
        if k != "fact" or y[0] or y[1].op != "isok":
            return False
        x = y[1].a[0]
        return x.op == "optmap" and len(x.a) > 3 and x.a[2] == "filter" and x.a[0] is d and isinstance(x.a[3], Term) and x.a[3] is not TRUE and \
            any(z is pay(d) for z in subterms(x.a[3]))
    return p is not None and f.holds_at(p, pred, 0, None)


@check("C31")
def c31(w, rep):
    st = stops(w)
    nd = nl = 0
    for b in exported(w):
        if re.match(r"^file_dump_\w+$", b.name):
            nd += 1
            dumped(rep, w, w.flow(b, stop=st, key="c29"), b)
        elif b.name.startswith("load_hnswdump_"):
            nl += 1
            reloaded(rep, w, w.flow(b, stop=st, key="c29"), b)
    rep.count("file_dump_ functions", nd, 5)
    rep.count("load_hnswdump_ functions", nl, 15)
    described(rep, w, st)
    reloader(rep, w, st)


def dumped(rep, w, f, b):
    ns = api_call(rep, w, f, b, "file_dump")
    if len(ns) != 1:
        if ns:
            rep.unk(b.name, "%d calls of file_dump" % len(ns), ns[0].where)
        return
    n = ns[0]
    d = n.call.dest
    rep.tri(True if the_name(n.call.args[2], P(2), P(3)) else (False if readable_text(n.call.args[2]) else None), b.name + " (name)",
            "dumps under the name %s" % show(n.call.args[2], 5), n.where)
    for p, t in f.results():
        at = p.where if p is not None else n.where
        t = plain(t)
        if t.op == "unwrap_or" and t.a[0].op == "optmap" and t.a[0].a[0] is d and t.a[0].a[1].op == "int" and t.a[1].op == "int":
            rep.tri(t.a[0].a[1] is I(1), b.name + " (success)", "%s is returned when the dump has succeeded" % show(t.a[0].a[1], 2), at)
            rep.tri(t.a[1] is not I(1), b.name + " (failure)", "1 is returned when the dump has not succeeded", at)
            continue
        if t.op != "int":
            rep.unk(b.name + " (result)", "returns %s" % show(t, 5), at)
            continue
        p = p if p is not None else f.exit
        ok, ko = known_ok(f, p, d, True), known_ok(f, p, d, False)
        early = not f.dominates(n, p)
        if t is I(1):
            ko = ko or after_known(f, p, d, False)
        else:
            ok = ok or after_known(f, p, d, True)
        if t is I(1):
            rep.tri(True if ok else (False if ko or early or not tests(f, d) else None), b.name + " (success)", "1 is returned when the dump has not succeeded", at)
        else:
            rep.tri(True if ko or early else (False if ok or not tests(f, d) else None), b.name + " (failure)", "%s is returned when the dump has succeeded" % show(t, 2), at)


def after_known(f, p, call, pol):
    """p is reached on some path which has seen isok(call) to be pol"""
    return any(q == pol and a.op == "isok" and a.a[0] is call and (n is p or p in f.reach(n.succ)) for n in f.order for q, a in n.facts)


def tests(f, d):
    def has(a, depth=0):
        return any(x is d or (x.op == "phi" and depth < 3 and any(has(v, depth + 1) for v in f.alts(x) if v is not x)) for x in subterms(a))
    return any(has(a) for n in f.order for _, a in n.facts)


def readable_text(t):
    return all(x.op in ("call", "rawslice", "param", "int", "str", "slice", "cat", "ptrcast", "cast", "bin", "len", "copy", "min", "max", "satsub") for x in subterms(t))


def is_part(t):
    """parts of a text"""
    return t.op == "call" and t.a[0].split("::")[-1] in ("split", "rsplit", "splitn", "rsplitn", "chars", "bytes", "split_whitespace", "lines")


def reloaded(rep, w, f, b):
    calls = [n for n in f.order if n.call is not None and n.call.name in ("HnswIo::load_hnsw", "HnswIo::load_hnsw_with_dist")]
    wh = "%s:%s" % (b.file, b.line)
    if len(calls) != 1:
        rep.tri(None if calls else False, b.name, "%d reloads" % len(calls), wh)
        return
    d = calls[0].call.dest
    rs = cases(f)
    if not any(not is_null(t) for _, t in rs):
        rep.bad(b.name + " (success)", "gives null whatever the reload gives", wh)
    for p, t in rs:
        at = p.where if p is not None else wh
        if is_null(t):
            early = p is not None and not f.dominates(calls[0], p)
            ok, ko = known_ok(f, p, d, True), known_ok(f, p, d, False)
            rep.tri(True if ko else (False if ok or not tests(f, d) or discarded(f, p, d) else None if early else None), b.name + " (failure)", "null is returned after a reload which succeeded", at)
            continue
        x = index_of(t)
        if x is None:
            rep.unk(b.name + " (success)", "returns %s" % show(t, 5), at)
            continue
        v = True if x.op == "pay" and x.a[0] is d and (known_ok(f, p, d, True) or unwraps(f, d)) else None
        if v is None and known_ok(f, p, d, False):
            v = False
        rep.tri(v, b.name + " (success)", "returns %s when the reload failed" % show(t, 5), at)


def unwraps(f, d):
    return any(n.call is not None and mname(n) in ("unwrap", "expect") and n.call.args and n.call.args[0] is d for n in f.order)


SAME_FIELD = {"data_dimension": "dimension"}


def described(rep, w, st):
    b = w.fn("load_hnsw_description")
    ffi, de = w.adt("DescriptionFFI"), w.adt("Description")
    f = w.flow(b, stop=st, key="c29")
    wh = "%s:%s" % (b.file, b.line)
    calls = [n for n in f.order if n.call is not None and n.call.name.endswith("load_description")]
    if len(calls) != 1:
        rep.tri(None if calls else False, b.name, "%d descriptions read" % len(calls), wh)
        return
    n = calls[0]
    d = n.call.dest
    # the file read is the one named
    op = [x for x in subterms(n.call.args[0]) if x.op == "call" and x.a[0] in ("OpenOptions::open", "File::open")]
    if len(op) == 1:
        nm = op[0].a[-1]
        rep.tri(True if the_name(nm, P(1), P(2)) else (False if readable_text(nm) else None), b.name + " (file)", "reads the file %s" % show(nm, 5), n.where)
    else:
        rep.unk(b.name + " (file)", "reads %s" % show(n.call.args[0], 5), n.where)
    dn = {x[0] for x in de.fields}
    good = False
    for p, t in f.results():
        at = p.where if p is not None else wh
        if is_null(t):
            opened = [c for c in f.order if c.call is not None and c.call.dest in op]
            ko = known_ok(f, p, [d] + op, False)
            ok = known_ok(f, p, d, True)
            rep.tri(True if ko else (False if ok or not tests(f, d) or discarded(f, p, d) else None), b.name + " (failure)", "null is returned although the description was read", at)
            continue
        t = settle(f, plain(t))
        if t.op != "ptr" or t.a[0].op not in ("agg", "with"):
            rep.unk(b.name + " (description)", "returns %s" % show(t, 4), at)
            continue
        good = True
        rep.tri(True if known_ok(f, p, d, True) or unwraps(f, d) else (False if known_ok(f, p, d, False) or any(known_ok(f, p, o, False) for o in op) or not tests(f, d) else None), b.name + " (success)",
                "a description is returned although none was read", at)
        src = pay(d)
        r = Reader(f)
        for fn, ti, vis in ffi.fields:
            g = t.a[0] if t.a[0].op == "agg" else None
            x = agg_get(g, fn) if g is not None else getf(t.a[0], fn)
            if x is None:
                rep.unk(b.name + " (%s)" % fn, "not found", at)
                continue
            base = re.sub(r"_len$|_ptr$", "", fn)
            names = [y for y in (fn, SAME_FIELD.get(fn), base, base.replace("name", "_name"), base.replace("_name", "name"), base.replace("t_name_len", "t_name")) if y in dn]
            if not names:
                rep.unk(b.name + " (%s)" % fn, "a field the description does not have", at)
                continue
            e = T("field", src, names[0])
            if w.prog.types[ti]["k"] == "ptr":
                x, e = plain(x), T("ptr", e)
            elif w.prog.ts([q for q in de.fields if q[0] == names[0]][0][1]).endswith("String"):
                x, e = plain(x), T("len", e)
            else:
                x = plain(x)
            v = True if x is e else (False if all(y.op in ("field", "pay", "call", "len", "ptr", "int", "null", "cast", "bin", "param", "rawslice", "opt", "str", "min", "max", "satsub", "slice") or y.op == "elem" and is_part(y.a[0]) for y in subterms(x)) else None)
            rep.tri(v, b.name + " (%s)" % fn, "the field %s is given as %s" % (fn, show(x, 5)), at)
    if not good:
        rep.unk(b.name + " (success)", "no description is seen to be returned", wh)
    kept(rep, w, f, b)


def getf(t, name):
    while t.op == "with":
        if t.a[1] == name:
            return t.a[2]
        t = t.a[0]
    return agg_get(t, name) if t.op == "agg" else None


def reloader(rep, w, st):
    b = w.fn_opt("get_hnswio")
    if b is None:
        rep.bad("get_hnswio", "has disappeared")
        return
    f = w.flow(b, stop=st, key="c29")
    for p, t in f.results():
        at = p.where if p is not None else "%s:%s" % (b.file, b.line)
        t = plain(t)
        n = made_at(f, t.a[0]) if t.op == "ptr" else None
        if n is None or n.call.name != "HnswIo::new":
            rep.unk("get_hnswio", "returns %s" % show(t, 5), at)
            continue
        nm = n.call.args[1]
        rep.tri(True if the_name(nm, P(1), P(2)) else (False if readable_text(nm) else None), "get_hnswio (name)", "reloads from the name %s" % show(nm, 5), n.where)
