"""Normal forms of sequences: upper bounds of their length, their order, where their elements come from."""
from .common import *

KEEP = ("coll", "map", "filter", "sorted", "rev", "copy", "copied", "filtermap", "enum", "takewhile", "skip", "take", "slice", "zip")
GROW = ("push", "push_back", "push_front", "insert", "extend", "extend_from_slice", "append", "resize", "resize_with")
SHRINK = ("pop", "pop_front", "pop_back", "clear", "truncate", "retain", "dedup", "dedup_by_key", "dedup_by", "drain", "remove",
          "swap_remove", "split_off")
DISORDER = ("select_nth_unstable", "select_nth_unstable_by", "select_nth_unstable_by_key", "shuffle", "partial_shuffle", "rotate_left", "rotate_right", "swap")
NEUTRAL = ("reserve", "reserve_exact", "shrink_to_fit")
SORTS = ("sort", "sort_by", "sort_unstable", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key")


def mname(n):
    return n.call.name.partition("::")[2]


def events(f, c, names=None):
    """calls whose receiver is the collection c"""
    for n in f.order:
        if n.call is not None and n.call.args and n.call.args[0] is c:
            m = mname(n)
            if (names is None and (m in GROW or m in SHRINK or m in SORTS or m == "reverse")) or (names and m in names):
                yield n


def mins(t, f=None, depth=0):
    """terms every one of which is an upper bound of t (of each value t can stand for when f is given)"""
    if t.op == "min":
        return set().union(*(mins(x, f, depth) for x in t.a)) | {t}
    if t.op == "satsub":
        return mins(t.a[0], f, depth) | {t}
    if f is not None and t.op == "phi" and depth < 4 and resolvable(f, t):
        per = []
        for p, v in f.phi_in[t]:
            s = mins(v, f, depth + 1)
            if p is not None:
                for pol, a in f.facts_at(p):
                    if a.op == "lt" and pol and a.a[0] is v:
                        s |= {a.a[1]}
                    elif a.op == "lt" and not pol and a.a[1] is v:
                        s |= {a.a[0]}
            per.append(s)
        return set.intersection(*per) | {t}
    return {t}


def resolvable(f, t):
    """a choice between values (not a value carried around a loop)"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.op != "phi":
            continue
        if x in seen or x not in f.phi_in:
            return False
        seen.add(x)
        st.extend(v for _, v in f.phi_in[x])
        for _, v in f.phi_in[x]:
            if v.op != "phi" and any(y.op == "phi" for y in subterms(v)):
                return False
    return True


def ites(f, t, memo=None):
    """t with the choices between two values written ite(condition, value if true, value if false)"""
    memo = f.__dict__.setdefault("_ites", {})
    if t in memo:
        return memo[t]
    memo[t] = t
    r = t
    if t.op == "phi" and t in f.phi_in:
        r = ite(f, t, memo)
    elif any(isinstance(y, Term) for y in t.a):
        a = [ites(f, y) if isinstance(y, Term) else y for y in t.a]
        if any(x is not y for x, y in zip(a, t.a)):
            from .compr import rebuild
            r = rebuild(t.op, a)
    memo[t] = r
    return r


def ite(f, t, memo):
    if not choice(f, t):
        return t
    ins = f.phi_in[t]
    vs = list(dict.fromkeys(v for _, v in ins))
    if len(vs) != 2:
        return t
    side = []
    for v in vs:
        fs = [f.facts_at(p) for p, x in ins if x is v]
        common = [y for y in fs[0] if all(y in z for z in fs[1:])]
        side.append(common)
    other = set(side[1])
    for pol, a in side[0]:
        if (not pol, a) in other:
            x, y = (vs[0], vs[1]) if pol else (vs[1], vs[0])
            return T("ite", ites(f, a), ites(f, x), ites(f, y))
    return t


def choice(f, t):
    """a phi which is not carried around a loop"""
    n = node_by_id(f, t.a[0])
    return t in f.phi_in and n is not None and not any(p is None or f.dominates(n, p) for p, _ in f.phi_in[t])


def opaque_in(f, t, depth=0):
    """opaque(t), choices between readable values being readable"""
    if t.op == "phi" and depth < 4 and resolvable(f, t):
        return any(opaque_in(f, v, depth + 1) for _, v in f.phi_in[t])
    if t.op in ("min", "max", "satsub", "len"):
        return any(opaque_in(f, x, depth + 1) for x in t.a)
    if t.op == "bin" and depth < 4 and ways(f, t):
        return any(opaque_in(f, v, depth + 1) for _, v in ways(f, t))
    return opaque(t)


def ways(f, u):
    """[(where it comes from, value)] of a choice, or of a number computed from one choice; None for anything else"""
    if u.op == "phi":
        return f.phi_in.get(u)
    if u.op == "bin" and u.a[0] in ("Mul", "Add", "Sub", "Shl"):
        for i in (1, 2):
            x = u.a[i]
            while x.op in ("cast", "copy"):
                x = x.a[-1] if x.op == "cast" else x.a[0]
            if x.op == "phi" and resolvable(f, x):
                return [(p, binop(u.a[0], *((v, u.a[2]) if i == 1 else (u.a[1], v)))) for p, v in f.phi_in[x]]
    return None


def arith(t):
    """a number computed from others (not one of them unchanged)"""
    return t.op in ("max", "min", "bin", "satsub") or (t.op == "call" and t.a[0].split("::")[0] in ("f32", "f64", "num", "usize", "u8", "i32", "i64", "u64"))


FEWER = ("take", "skip", "slice", "takewhile", "filter", "filtermap", "stepby", "chunksx", "windows", "dedup")


def whole(seq):
    """no element of the collection is left out of the sequence taken from it"""
    while seq.op in KEEP + FEWER + ("chainx",):
        if seq.op in FEWER:
            return False
        seq = seq.a[0]
    return True


def never_run(f, site):
    """the closure at `site` is given to a lazy adapter whose result nothing consumes: it never runs"""
    for c in f.order:
        if c.call is not None and isinstance(c.call.dest, Term) and c.call.dest.op in ("map", "filter", "filtermap", "flatmap") and c.call.dest.a[-1] == site:
            d = c.call.dest
            used = any(n is not c and n.call is not None and any(isinstance(a, Term) and (a is d or d in subterms(a)) for a in n.call.args) for n in f.order) or \
                any(d in subterms(r) for _, r in f.results() if isinstance(r, Term)) or any(d in subterms(v) for n in f.order for _, v in n.stores)
            return not used
    return False


def leaves(f, site):
    """a node outside the loop at `site` reached from one of its turns without its sequence being exhausted, or None"""
    from .insert import turn_edges
    s = node_by_id(f, site)
    if s is None:
        return None
    around = {node_by_id(f, o) for _, o in loop_nexts(f, s)} - {s}
    for ed in turn_edges(f, site):
        for z in f.reach([ed], stop=lambda y: y is s):
            if z in around or z.kind == "return" and z.ctx.parent is None:
                return z
    return None


def maxs(t):
    """terms every one of which is a lower bound of t"""
    if t.op == "max":
        return set().union(*(maxs(x) for x in t.a)) | {t}
    return {t}


def opaque(t):
    """contains something the engine could not reduce"""
    for x in subterms(t):
        if x.op in ("call", "phi", "other", "undef", "unk", "?", "cparam", "init", "entryval"):
            return True
    return False


def loop_nexts(f, n):
    """[(sequence, site)] of the loops around n (for loops and closures called for each element), outermost first"""
    out = []
    for d in f.doms(n)[::-1]:
        if d.id in f.hof_loop:
            it, site = f.hof_loop[d.id]
            if inside(f, n, site):
                out.append((it, site))
        for pol, a in d.facts:
            if pol and a.op == "isok" and a.a[0].op == "next" and inside(f, n, a.a[0].a[1]):
                out.append((a.a[0].a[0], a.a[0].a[1]))
    return out


def inside(f, n, site):
    """n leads back to the node `site`: it is in the loop and not after it"""
    s = node_by_id(f, site)
    return s is None or s in f.reach(n.succ)


def node_by_id(f, i):
    m = getattr(f, "_byid", None)
    if m is None:
        m = f._byid = {n.id: n for n in f.order}
    return m.get(i)


def in_cycle(f, n, stop=lambda x: False):
    """n can be executed again without passing a node satisfying stop"""
    return n in f.reach(n.succ, stop=stop)


def once_per(f, n, site):
    """n is executed at most once for each execution of node `site`"""
    s = node_by_id(f, site)
    if s is None:
        return False
    return not in_cycle(f, n, lambda x: x is s)


def upper(f, t, depth=0):
    """set of upper bounds of the length of sequence t, or None when it cannot be read"""
    if depth > 12:
        return None
    o = t.op
    cut = cuts(f, t)
    if cut and o != "new":
        return cut
    if o == "slice":
        return (upper(f, t.a[0], depth + 1) or set()) | mins(binop("Sub", t.a[2], t.a[1]), f) | mins(t.a[2], f)
    if o == "take":
        return (upper(f, t.a[0], depth + 1) or set()) | mins(t.a[1], f)
    if o in KEEP:
        u = upper(f, t.a[0], depth + 1)
        if o == "coll":
            u2 = events_bound(f, t)
            return None if u is None or u2 == "grow" else u | u2
        return u
    if o == "agg" and t.a[0] == "array":
        return {I(len(t.a[1]))}
    if o == "new" and t.a[0] == "Vec":
        return vec_upper(f, t, depth)
    if o == "new":
        for n in events(f, t, ("pop",)):
            for pol, a in f.facts_at(n):
                if pol and a.op == "lt" and a.a[1] is length(t):
                    return mins(a.a[0], f) | {T("len", t)}
        return {T("len", t)}
    if o in ("param", "elem", "field", "index", "prot"):
        return {length(t)}
    return None


def made(f, t):
    """the nodes which first give the value t (calls passing it on are not counted)"""
    ns = [n for n in f.order if n.call is not None and n.call.dest is t]
    return [n for n in ns if not any(m is not n and f.dominates(m, n) for m in ns)]


def cuts(f, t):
    """bounds of the length of t which every way from its making to the end imposes by truncating it"""
    tr = list(events(f, t, ("truncate",)))
    if not tr:
        return set()
    if t.op == "new":
        start = list(events(f, t, GROW))
    else:
        start = made(f, t) + list(events(f, t, GROW))
    out = set()
    ln = length(t)
    for n in tr:
        k = n.call.args[1]

        def short(x):
            return x is n or any((not pol and a is lt(k, ln)) or (pol and a is lt(ln, k)) for pol, a in x.facts)
        if start and all(f.must_reach(g, short) for g in start):
            out |= mins(k, f)
    return out


def events_bound(f, c):
    """extra bounds from truncate events after construction; "grow" if c also grows later"""
    return "grow" if any(mname(n) in GROW for n in events(f, c)) else set()


def vec_upper(f, v, depth=0):
    grow = [n for n in events(f, v, GROW)]
    out = cuts(f, v)
    if not grow:
        return out | {I(0)}
    if len(grow) > 1:
        per = []
        for g in grow:
            per.append(guard_bound(f, g, v))
        r = common_bounds(per)
        return (out | r) or None
    g = grow[0]
    m = mname(g)
    out |= guard_bound(f, g, v)
    if m in ("push", "push_back", "push_front", "insert"):
        nx = [x for x in loop_nexts(f, g)]
        cre = node_by_id(f, v.a[1])
        if not in_cycle(f, g, lambda x: x is cre):
            return out | {I(1)}
        if nx:
            it, site = nx[-1]
            if once_per(f, g, site):
                s = node_by_id(f, site)
                # the loop itself is entered once per creation of v
                outer = nx[:-1]
                if not any(not in_created_scope(f, v, so) for _, so in outer):
                    u = upper(f, it, depth + 1)
                    if u is not None:
                        return out | u
        return out or None
    if m in ("extend", "append", "extend_from_slice"):
        cre = node_by_id(f, v.a[1])
        if not in_cycle(f, g, lambda x: x is cre):
            u = upper(f, g.call.args[1], depth + 1)
            if u is not None:
                return out | u
    return out or None


def in_created_scope(f, v, site):
    """every turn of the loop at `site` creates v again"""
    s, cre = node_by_id(f, site), node_by_id(f, v.a[1])
    return s is not None and cre is not None and not in_cycle(f, s, lambda x: x is cre)


def common_bounds(per):
    """bounds which hold whichever of the growths, each with its bounds, came last"""
    if not per:
        return set()
    r = set.intersection(*per)
    return r or set.intersection(*(p | {binop("Add", x, TRUE) for x in p} for p in per))


def guard_bound(f, g, v):
    """bounds X such that every way to event g tests len(v) < X (since the last growth), or len(v) != X where v grows by one"""
    out = set()
    if mname(g) not in ("push", "push_back", "push_front", "insert"):
        return out
    for pol, a in f.facts_at(g):
        if not pol and a.op == "eq" and length(v) in a.a:
            x = a.a[1 - a.a.index(length(v))]
            if all(mname(n) in ("push", "push_back", "push_front", "insert") and any(not p and y is a or p and y.op == "lt" and y.a[0] is length(v) and y.a[1] is x for p, y in f.facts_at(n))
                   for n in events(f, v, GROW)):
                out |= mins(x, f)
        if pol and a.op == "lt" and a.a[0] is length(v):
            out |= mins(a.a[1], f)
        if not pol and a.op == "lt" and a.a[1] is length(v):
            out |= {binop("Add", x, TRUE) for x in mins(a.a[0], f)}
    return out


# ------------------------------------------------------------------ order
def flip(o):
    return {"asc": "desc", "desc": "asc"}.get(o, o)


def sign_of(t, dfield):
    """(+1|-1, inner term) of a possibly negated distance term"""
    s = 1
    while t.op == "fneg" or t.op == "neg":
        s, t = -s, t.a[0]
    return s, t


def comparator(f, n):
    """order produced by the sort event n, with the key fields: ('asc'|'desc'|None, accessor)"""
    m = mname(n)
    if m in ("sort", "sort_unstable"):
        return "ord", None
    r = f.filter_ret.get(n.id)
    if r is None:
        return None, None
    o = "asc"
    while r.op in ("reverse", "pay"):
        if r.op == "reverse":
            o = flip(o)
        r = r.a[0]
    if m in ("sort_by", "sort_unstable_by"):
        if r.op != "cmp":
            return None, None
        a, b = r.a
        e1, p1 = peel_field(strip_val(a))
        e2, p2 = peel_field(strip_val(b))
        if p1 != p2:
            return None, None
        if e1.op == "elem2" and e2.op != "elem2":
            o = flip(o)
        elif not (e2.op == "elem2" and e1.op != "elem2"):
            return None, None
        s1, s2 = sign_of(a, None)[0], sign_of(b, None)[0]
        if s1 != s2:
            return None, None
        return (o if s1 > 0 else flip(o)), tuple(p1)
    return None, None


def strip_val(t):
    while t.op == "neg":
        t = t.a[0]
    return t


def cmp_key(t):
    """accessor path of one side of a comparison of two elements"""
    return peel_field(strip_val(t))


def ord_dir(w, trait, tyname, dfield):
    """'asc' if the comparison method of the local type orders by increasing dfield, 'desc', or None"""
    pr = w.prog
    name = {"Ord": "cmp", "PartialOrd": "partial_cmp"}[trait]
    for b in pr.bodies.values():
        if b.name != name or b.kind == "Closure" or not (b.impl_trait or "").endswith("::" + trait):
            continue
        if b.impl_self is None or (pr.adt_of(b.impl_self) or "").split("::")[-1] != tyname:
            continue
        f = w.flow(b)
        dirs = set()
        for p, r in f.results():
            todo = [(p if p is not None else f.exit, r, 0)]
            while todo:
                p, t, dp = todo.pop()
                if t.op == "agg" and t.a[0] == "Option::Some":
                    t = t.a[2]
                if t.op == "phi" and dp < 6 and f.phi_in.get(t):
                    todo += [(q, v, dp + 1) for q, v in f.alts_at(t)]
                else:
                    dirs.add(cmp_dir(t, dfield) or cmp_const(f, p, t, dfield) or cmp_other(t, dfield))
        dirs.discard("any")
        if "other" in dirs:
            return "other"
        return dirs.pop() if len(dirs) == 1 else "other" if dirs == {"asc", "desc"} else None
    return "missing"


FLAT = ("bin", "abs", "min", "max", "neg", "field", "param", "int", "float", "lt", "le", "eq", "not", "isok", "cast", "real", "const", "clone", "copy")


def sides(x, dfield):
    """the parameters whose distance x is computed from, or None when something else is used"""
    if x.op == "field" and x.a[1] == dfield:
        y = peel_field(x)[0]
        return {y} if y.op == "param" else None
    out = set()
    for y in x.a:
        if isinstance(y, Term):
            r = sides(y, dfield) if y.op not in ("int", "float", "str", "real", "const") else set()
            if r is None:
                return None
            out |= r
    return out if x.a and x.op not in ("param", "phi") else None


def cmp_const(f, p, x, dfield):
    """verdict for a constant answer: 'asc', 'desc', 'any' (right for both), 'other' (right for none) or None"""
    if x.op != "agg" or x.a[0] not in ("Ordering::Less", "Ordering::Greater", "Ordering::Equal"):
        return None
    facts = set()
    for n in list(f.doms(p)) + [p]:
        facts.update(n.facts)
    mine = [(pol, a) for pol, a in facts if any(y.op == "field" and y.a[1] == dfield for y in [a] + list(subterms(a)))]
    less = more = same = notless = notmore = False
    for pol, a in mine:
        if a.op == "ne":
            pol, a = not pol, eq(*a.a)
        if a.op not in ("lt", "eq") or any(y.op != "field" or y.a[1] != dfield or peel_field(y)[0].op != "param" for y in a.a):
            continue
        u, v = (peel_field(y)[0].a[0] for y in a.a)
        if u == v:
            continue
        if a.op == "eq":
            same |= pol
        elif pol:
            less |= u < v
            more |= u > v
        else:
            notless |= u < v
            notmore |= u > v
    if same or notless and notmore:
        return "any" if x.a[0] == "Ordering::Equal" else "other"
    if less or more:
        if x.a[0] == "Ordering::Equal":
            return "other"
        return "asc" if (x.a[0] == "Ordering::Less") == less else "desc"
    nan = lambda a: a.op == "is" and a.a[1] == "nan" or a.op == "call" and str(a.a[0]).endswith("is_nan")
    mine = [(pol, a) for pol, a in mine if not (nan(a) and not pol)]
    plain = lambda y: y.op in FLAT or not any(isinstance(z, Term) for z in y.a) or y.op == "call" and str(y.a[0]).startswith(("f32::", "f64::"))
    if mine and all(plain(y) and not nan(y) for _, a in mine for y in [a] + list(subterms(a))):
        return "other"
    return None


def cmp_other(x, dfield):
    """'other' when the two distances are not compared themselves but after a change which does not keep their order"""
    if x.op != "cmp":
        return None
    a, b = x.a
    if not (isinstance(a, Term) and isinstance(b, Term)):
        return None
    sa, sb = sides(a, dfield), sides(b, dfield)
    if not sa or not sb or len(sa) != 1 or len(sb) != 1 or sa == sb:
        return None
    a, b = sign_of(a, None)[1], sign_of(b, None)[1]
    lossy = lambda t: (t.op == "cast" and t.a[0] not in ("f64", "f32")) or (t.op == "call" and str(t.a[0]).split("::")[-1] in (
        "to_bits", "abs", "round", "floor", "ceil", "trunc", "fract", "to_int_unchecked"))
    return "other" if lossy(a) and lossy(b) else None


def cmp_dir(x, dfield):
    if x.op != "cmp":
        return None
    (s1, a), (s2, b) = sign_of(x.a[0], None), sign_of(x.a[1], None)
    pa, pb = peel_field(a), peel_field(b)
    if pa[1] != pb[1] or pa[1][-1:] != [dfield] or s1 != s2:
        return None
    if pa[0].op == "param" and pb[0].op == "param":
        o = "asc" if pa[0].a[0] < pb[0].a[0] else "desc" if pa[0].a[0] > pb[0].a[0] else None
        return o if s1 > 0 or o is None else flip(o)
    return None


STRIP = KEEP + ("into_vec", "chainx", "dedup", "stepby", "chunks", "chunksx", "windows")


def coll_of(t):
    """the collection a sequence or element term is taken from"""
    while True:
        if t.op in STRIP:
            t = t.a[0]
        elif t.op in ("elem", "index", "get", "first", "last", "peek", "pop", "find", "minby", "next"):
            t = t.a[0]
        elif t.op == "pay":
            t = t.a[0]
        else:
            return t


def uncopied(t):
    while t.op in ("copy", "copied"):
        t = t.a[0]
    return t


def short_list(f, node, c):
    """c is known to hold at most one element at this node"""
    for pol, at in node.facts:
        if at.op == "lt":
            x, y = at.a
            if pol and x.op == "len" and x.a[0] is c and y.op == "int" and y.a[0] <= 2:
                return True
            if not pol and y.op == "len" and y.a[0] is c and x.op == "int" and x.a[0] <= 1:
                return True
        if at.op == "eq" and pol:
            x, y = at.a
            if x.op == "int":
                x, y = y, x
            if x.op == "len" and x.a[0] is c and y.op == "int" and y.a[0] <= 1:
                return True
    return False


class Order:
    """order of a sequence of entries by their distance"""

    def __init__(self, w, f, names):
        self.w, self.f, self.names = w, f, names      # names: {type name: distance field}
        self.why = []

    def heap(self, h):
        """direction of the distances kept in heap h: +1 positive, -1 negated, None unknown"""
        w, f = self.w, self.f
        signs = set()
        for n in events(f, h, GROW):
            v = n.call.args[1]
            if mname(n) != "push":
                v = elem(uncopied(v), n.id)
            for x in f.alts(v):
                x = uncopied(x)
                if not w.is_pwo(x):
                    src = h
                    if x.op == "elem" or x.op == "pay" and x.a[0].op in ("pop", "peek", "first", "last", "next"):
                        src = coll_of(x)
                        while src.op in ("sorted", "rev", "copy", "coll", "drain") and src.a:
                            src = coll_of(src.a[0])
                    signs.add(self.heap(src) if src is not h and src.op == "new" and src.a[0] in ("BinaryHeap", "Vec") else None)
                    continue
                s, d = sign_of(agg_get(x, w.pwo_d), None)
                if d.op == "eval":
                    signs.add(s)
                elif d.op == "field" and d.a[1] == w.pwo_d:
                    src = coll_of(d.a[0])
                    if src is h or src.op != "new":
                        signs.add(None)
                    else:
                        inner = self.heap(src)
                        signs.add(None if inner is None else s * inner)
                else:
                    signs.add(None)
        return signs.pop() if len(signs) == 1 else None

    def of(self, t, depth=0):
        """'asc', 'desc', 'any' (nothing to order), 'none' (no order), or None (unknown); the key is the true distance of entries"""
        f, w = self.f, self.w
        if depth > 12:
            return None
        o = t.op
        if o == "sorted" and t.a[0].op == "new":
            s = self.heap(t.a[0])
            if s is None:
                return None
            a, b = ord_dir(w, "Ord", w.pwo_name, w.pwo_d), ord_dir(w, "PartialOrd", w.pwo_name, w.pwo_d)
            if a is None or b is None or "missing" in (a, b):
                return None
            if a != b or a == "other":
                return "none"
            return self.after_sort(t, a if s > 0 else flip(a))
        if o == "rev":
            return flip(self.of(t.a[0], depth + 1))
        if o in ("slice", "take", "skip", "filter", "copy", "copied", "takewhile", "enum"):
            return self.after_sort(t, self.of(t.a[0], depth + 1))
        if o == "coll":
            return self.after_sort(t, self.of(t.a[0], depth + 1))
        if o == "map":
            return self.mapped(t.a[0], t.a[1], self.of(t.a[0], depth + 1))
        if o == "filtermap":
            vs = [x for x in f.alts(t.a[1]) if not (x.op == "agg" and x.a[0] == "Option::None")]
            rs = {self.mapped(t.a[0], x.a[2], self.of(t.a[0], depth + 1)) if x.op == "agg" and x.a[0] == "Option::Some" else None for x in vs}
            return rs.pop() if len(rs) == 1 else None
        if o == "agg" and t.a[0] == "array" and len(t.a[1]) <= 1:
            return "any"
        if o == "new" and t.a[0] == "BinaryHeap":
            return "none"
        if o == "new" and t.a[0] == "Vec":
            grow = list(events(f, t, GROW))
            base = None
            if not grow:
                base = "any"
            elif len(grow) == 1:
                g = grow[0]
                m = mname(g)
                if m == "push" or (m == "insert" and g.call.args[1] is FALSE):
                    v = g.call.args[-1]
                    nx = loop_nexts(f, g)
                    if nx and once_per(f, g, nx[-1][1]) and not any(not in_created_scope(f, t, so) for _, so in nx[:-1]):
                        it = nx[-1][0]
                        base = self.mapped(it, v, self.seq_of(it, v, depth))
                        if m == "insert":
                            base = flip(base)
                elif m in ("extend", "append", "extend_from_slice"):
                    base = self.of(g.call.args[1], depth + 1)
            return self.after_sort(t, base)
        return None

    def seq_of(self, it, v, depth):
        """order of what the loop over `it` visits, `v` being the value taken at each turn"""
        if it.op == "agg" and it.a[0] in ("Range", "RangeInclusive") or (it.op == "rev" and it.a[0].op == "agg"):
            # entries taken by increasing index from a sequence
            for x in subterms(v):
                if x.op == "index" and x.a[1].op in ("elem",) and x.a[1].a[0] is (it.a[0] if it.op == "rev" else it):
                    r = self.of(x.a[0], depth + 1)
                    return flip(r) if it.op == "rev" else r
            return None
        return self.of(it, depth + 1)

    def mapped(self, it, v, base):
        """order after mapping each entry to v"""
        if base in (None, "none", "any"):
            return base
        d = v
        if v.op == "agg" and v.a[0] in self.names:
            d = agg_get(v, self.names[v.a[0]])
        elif v.op in ("elem", "index", "copy"):
            return base
        else:
            return None
        s, x = sign_of(d, None)
        if x.op == "field" and x.a[1] in self.names.values():
            return base if s > 0 else flip(base)
        return None

    def after_sort(self, c, base):
        """sorts and reversals applied in place to c override its construction order"""
        f = self.f
        evs = [n for n in events(f, c) if mname(n) in SORTS or mname(n) == "reverse"]
        for n in evs:
            if mname(n) == "reverse":
                if len(evs) == 1:
                    base = flip(base)
                else:
                    return None
                continue
            starts = list(events(f, c, GROW))
            if c.op in ("coll", "sorted"):
                starts += [x for x in [node_by_id(f, c.a[1])] if x is not None]
            if not all(f.must_reach(g, lambda x, n=n: x is n or short_list(f, x, c)) for g in starts):
                continue
            o, key = comparator(f, n)
            if o == "ord":
                ty = None
                base = self.ord_of_elem(n)
            elif o and key and key[-1] in self.names.values():
                base = o
            else:
                return None
        for n in events(f, c, DISORDER):
            if base is not None and not f.must_reach(n, lambda x: x in evs and mname(x) in SORTS):
                base = "none"
        return base

    def ord_of_elem(self, n):
        pr = self.w.prog
        s = pr.ts(n.call.argtys[0]) if n.call.argtys[0] is not None else ""
        for nm, d in self.names.items():
            if nm + "<" in s or s.endswith(nm + "]") or ("::" + nm) in s:
                r = ord_dir(self.w, "Ord", nm, d)
                return None if r == "missing" else "none" if r == "other" else r
        return None


def contrary(f, node):
    """edges no way through which leads to node: they contradict a test every way to node makes on the same values"""
    m = f.__dict__.setdefault("_contrary", {})
    if node in m:
        return m[node]
    here = {}
    for d in f.doms(node):
        for fact in d.facts:
            here.setdefault(fact, d)
    out = set()
    for n in f.order:
        for pol, a in n.facts:
            d = here.get((not pol, a))
            if d is None:
                continue
            homes = {node_by_id(f, x.a[0]) for x in [a] + list(subterms(a)) if x.op == "phi"} | {
                node_by_id(f, x.a[-1]) for x in [a] + list(subterms(a)) if x.op in ("elem", "next", "pop", "peek") and isinstance(x.a[-1], int)}
            if any(x.op in ("len", "new", "prot") for x in [a] + list(subterms(a))) and any(
                    y.stores or y.call is not None and mname(y) in GROW + SHRINK for y in f.reach(n.succ, stop=lambda x: x is d)):
                continue
            if not (homes - {None}) & f.reach(n.succ, stop=lambda x: x is node):
                out.add(n)
    m[node] = out
    return out


def shown(f, node, pred, at=False):
    """f.holds, leaving out the ways which contradict a test made later on the same values"""
    c = contrary(f, node)

    def p(k, y):
        return pred(k, y) or k == "node" and y in c
    return f.holds_at(node, p, 0) if at else f.holds(node, p)


def cut_casts(f, pred, bytes_):
    """[(node, type, value)] of the conversions to an integer of at most bytes_ bytes of a value satisfying pred"""
    from engine.flow import PRIM_SIZE
    out, seen = [], set()
    for n in f.order:
        ts = [v for _, v in n.stores] + [a for _, a in n.facts]
        if n.call is not None:
            ts += list(n.call.args) + [n.call.dest]
        for t in ts:
            if not isinstance(t, Term):
                continue
            for x in [t] + list(subterms(t)):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "cast" and str(x.a[0]) not in ("f32", "f64", "bool", "char") and PRIM_SIZE.get(x.a[0], 16) <= bytes_ and isinstance(x.a[-1], Term) and pred(x.a[-1]):
                    out.append((n, x.a[0], x.a[-1]))
    return out
