"""C23: what reading a damaged dump can do: panics, exits and allocations reachable from values read in files."""
from . import check
from .common import *
from .norm import *
from .wire import *
from .persist import readers, ok_results
from .compr import subst
from .insert import uncast
from .misc import strip, P
from engine.flow import PRIM_SIZE

BASES = ("readbytes", "bytescopy", "io", "decode", "mapget", "getslice")
FILES = ("OpenOptions::open", "File::open", "fs::metadata", "MmapOptions::map", "MmapOptions::new", "MmapOptions::with_file", "fs::read", "Metadata::len",
         "fs::read_to_string")
UNWRAPS = ("unwrap", "expect", "unwrap_err", "expect_err", "unwrap_unchecked")
ALLOCS = {"with_capacity": 0, "from_elem": 1, "reserve": 1, "reserve_exact": 1, "resize": 1, "resize_with": 1, "with_capacity_and_hasher": 0, "repeat": 1, "set_len": 1, "try_reserve_never": 1}
ENDS = ("exit", "abort")
LIMIT = 1 << 28


class Taint:
    """does a term depend on the content of files?"""

    def __init__(self, w, f, more=()):
        self.w, self.f, self.more = w, f, tuple(more)
        self.memo = {}

    def base(self, t):
        if t.op in BASES:
            return True
        if t.op == "call":
            return t.a[0] in FILES or any(t.a[0].endswith(x) for x in FILES) or t.a[0].split("::")[-1] in self.more
        return False

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = False
            seen, st = set(), [t]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                k = self.memo.get(x)
                if k is False:
                    continue
                if k or self.base(x):
                    r = True
                    break
                st.extend(y for y in x.a if isinstance(y, Term))
                if x.op == "phi":
                    st.extend(self.f.alts(x))
                elif x.op == "new":
                    for n in events(self.f, x):
                        if mname(n) in GROW:
                            st.extend(n.call.args[1:])
            if not r:
                for x in seen:
                    self.memo[x] = False
            self.memo[t] = r
        return r


def val(f, t):
    """value read, through casts that keep it"""
    t = settle(f, t)
    while t.op in ("cast", "copy"):
        x = t.a[-1] if t.op == "cast" else t.a[0]
        if t.op == "cast":
            b = x
            while b.op in ("cast", "copy"):
                b = b.a[-1] if b.op == "cast" else b.a[0]
            if b.op == "decode" and PRIM_SIZE.get(t.a[0], 0) < PRIM_SIZE.get(b.a[1], 99):
                return t
        t = settle(f, x)
    return t


SMALL = {"u8": 255, "i8": 127, "bool": 1, "u16": 65535, "i16": 32767}


class Bounds:
    def __init__(self, w, f, taint):
        self.w, self.f, self.taint = w, f, taint
        self.memo, self.sub, self.cmp = {}, {}, None

    def comparisons(self):
        if self.cmp is None:
            self.cmp = list({y for n in self.f.order for y in n.facts if y[1].op in ("lt", "eq", "isok")})
        return self.cmp

    def subs(self, a):
        r = self.sub.get(a)
        if r is None:
            r = self.sub[a] = set(subterms(settle(self.f, a)))
        return r

    def upper(self, node, v, depth=0):
        k = (node, v)
        if k not in self.memo:
            self.memo[k] = (None, "cyclic")
            self.memo[k] = self.upper_(node, v, depth)
        return self.memo[k]

    def upper_(self, node, v, depth=0):
        """(True, maximum or None) | (False, why) | (None, why)"""
        f = self.f
        v = val(f, v)
        if v.op == "int":
            return True, v.a[0]
        if v.op == "decode" and v.a[1] in SMALL:
            m = SMALL[v.a[1]]
            g = self.by_fact(node, v, depth)
            if g is not None and g[0] and g[1] is not None:
                m = min(m, g[1])
            return True, m
        if v.op == "cast" and v.a[0] in SMALL:
            return True, SMALL[v.a[0]]
        if v.op == "len" or v.op == "call" and v.a[0] in ("Metadata::len",):
            return True, None
        if not self.taint(v):
            return True, None
        g = self.by_fact(node, v, depth)
        if g is not None and g[0]:
            return g
        if depth < 5:
            if v.op == "bin" and v.a[0] in ("Add", "Mul"):
                rs = [self.upper(node, x, depth + 1) for x in v.a[1:3]]
                return self.both(rs, v.a[0])
            if v.op == "bin" and v.a[0] in ("Sub", "Div"):
                return self.upper(node, v.a[1], depth + 1)
            if v.op == "bin" and v.a[0] == "Rem":
                return self.upper(node, v.a[2], depth + 1)
            if v.op == "satsub":
                return self.upper(node, v.a[0], depth + 1)
            if v.op == "min":
                rs = [self.upper(node, x, depth + 1) for x in v.a]
                for r in rs:
                    if r[0]:
                        return r
                return rs[0]
            if v.op in ("max", "choice"):
                return self.both([self.upper(node, x, depth + 1) for x in v.a], "max")
            if v.op == "phi":
                rs = [self.upper(p if p is not None else node, x, depth + 1) for p, x in f.alts_at(v)]
                return self.both(rs, "max") if rs else (None, "no value")
            if v.op == "elem" and v.a[0].op == "agg" and v.a[0].a[0] == "Range":
                return self.upper(node, agg_get(v.a[0], "end"), depth + 1)
            if v.op == "pos":
                return True, None
        if g is not None:
            return g
        if v.op == "decode":
            return False, "nothing bounds %s" % show(v, 5)
        return None, "bound of %s" % show(v, 6)

    def both(self, rs, how):
        if any(r[0] is False for r in rs):
            return next(r for r in rs if r[0] is False)
        if any(r[0] is None for r in rs):
            return next(r for r in rs if r[0] is None)
        ms = [r[1] for r in rs]
        if None in ms:
            return True, None
        return True, max(ms) if how == "max" else sum(ms) if how == "Add" else ms[0] * ms[1]

    def by_fact(self, node, v, depth):
        """bound given by a comparison made on every path to node"""
        f = self.f
        found, other = [], []

        def sides(a):
            return val(f, a.a[0]), val(f, a.a[1])

        def read(y):
            pol, a = y
            if a.op == "lt":
                x, k = sides(a)
                if pol and x is v:
                    return k, -1
                if not pol and k is v:
                    return x, 0
                if x is v or k is v:
                    return None
            elif a.op == "eq" and pol:
                x, k = sides(a)
                if x is v:
                    return k, 0
                if k is v:
                    return x, 0
            elif a.op == "isok" and pol and a.a[0].op == "getslice":
                if v in self.subs(a.a[0].a[2]):
                    return T("len", a.a[0].a[0]), 0
            elif a.op == "isok" and pol and a.a[0].op == "get" and v in self.subs(a.a[0].a[1]):
                return T("len", a.a[0].a[0]), -1
            return None

        known = {}
        for y in self.comparisons():
            r = read(y)
            if r is not None and r[0].op != "int" and r[0] not in known:
                known[r[0]] = (True, None) if r[0].op == "len" or not self.taint(r[0]) else self.upper(node, r[0], depth + 2) if depth <= 3 else (None, "")

        def pred(k, y):
            if k != "fact":
                return False
            r = read(y)
            if r is None:
                if y[1].op in ("lt", "eq", "call", "contains", "accept") and v in self.subs(y[1]):
                    other.append(y)
                return False
            b, d = r
            if b.op == "int":
                found.append(b.a[0] + d)
                return True
            st, m = known.get(b, (None, ""))
            if st:
                found.append(m + d if m is not None else None)
                return True
            return False
        if f.holds_at(node, pred, 0):
            ms = [m for m in found if m is not None]
            return True, (max(ms) if ms and None not in found else None)
        unread = [y for y in other if y[1].op in ("call", "contains", "accept")]
        if unread:
            return None, "test %s" % show(unread[0][1], 6)
        return None if not other else (False, "the comparisons do not bound %s" % show(v, 5))


def entries(w):
    """[(body, flow, taint)]"""
    rd = readers(w)
    gd = w.fn("get_data", impl_of="DataMap")
    ds = w.fn("load_description")
    dm = w.fn("from_hnswdump", impl_of="DataMap")
    out = []
    for b in rd:
        f = w.flow(b, stop=[gd.id, dm.id], key="panics")
        out.append((b, f, Taint(w, f, ("get_data", "from_hnswdump"))))
    for b in (ds, dm):
        f = w.flow(b)
        out.append((b, f, Taint(w, f)))
    stop = [b.id for b in rd] + [ds.id, dm.id]
    for b in w.prog.bodies.values():
        if b.no_mangle and "load" in b.name:
            f = w.flow(b, stop=stop, key="panics")
            out.append((b, f, Taint(w, f, ("load_hnsw", "load_hnsw_with_dist", "load_description"))))
    return out


@check("C23")
def c23(w, rep):
    n = 0
    for b, f, taint in entries(w):
        n += 1
        one(w, rep, b, f, taint)
    rep.count("functions reading files", n, 4)
    rep.count("conditions, unwraps and indexes on values read", len(rep.items), 20)


def spot(n):
    return "%s:%s" % (n.ctx.body.name, n.where.split()[0].split(":")[-1])


def one(w, rep, b, f, taint):
    bd = Bounds(w, f, taint)
    pre = b.name + ":"
    for n in f.order:
        if is_log(n.span):
            continue
        if n.call is not None:
            m = mname(n)
            a = n.call.args
            ty = n.call.name.split("::")[-2] if "::" in n.call.name else ""
            if m in UNWRAPS and a and ty in ("Result", "Option"):
                unwrap(w, rep, pre, f, taint, n, a[0], m)
            elif m in ("index", "index_mut") and len(a) == 2:
                index(w, rep, pre, f, taint, bd, n, a[0], a[1])
            elif m in ALLOCS and len(a) > ALLOCS[m]:
                v = a[ALLOCS[m]]
                if taint(settle(f, v)):
                    st, why = bd.upper(n, v)
                    if st and why is not None and why > LIMIT:
                        st, why = False, "the bound %d is no limit" % why
                    rep.tri(st, pre + "alloc:" + spot(n), "memory is allocated for a number read from a file that nothing bounds: %s" % why, n.where, okmsg="bounded")
            elif m in ("copy_from_slice", "clone_from_slice") and len(a) == 2:
                copied(w, rep, pre, f, taint, n, a)
            elif m in ("split_at", "split_at_mut", "split_off", "remove", "swap_remove", "drain") and len(a) == 2 and ty in ("Vec", "slice", "str", "String") and taint(settle(f, a[1])):
                st, why = bd.upper(n, a[1])
                rep.tri(True if st else st, pre + m + ":" + spot(n), "position read from a file: %s" % why, n.where, okmsg="bounded")
            elif m in ("chunks", "chunks_exact", "step_by", "windows") and len(a) == 2 and taint(settle(f, a[1])):
                nonzero(w, rep, pre + m + ":" + spot(n), f, n, a[1], "a size of 0 read from the file panics")
            if m in ENDS and n.call.name.startswith("process"):
                rep.bad(pre + "exit:" + spot(n), "ends the process", n.where)
    for n in f.diverges:
        if n.kind == "diverge":
            stop_(w, rep, pre, f, taint, bd, n)
    sorts(w, rep, pre, f, taint)
    loops(w, rep, pre, f, taint, bd)
    arith(w, rep, pre, f, taint, bd)


def unwrap(w, rep, pre, f, taint, n, x, m):
    key = pre + "%s:%s" % (m, spot(n))
    want = m not in ("unwrap_err", "expect_err")
    x0, x1 = x, settle(f, x)
    if x1.op == "agg":
        if (x1.a[0] in OKV) == want:
            return
    if not taint(x1):
        return

    def known(k, y):
        return k == "fact" and y[1].op == "isok" and y[0] == want and (y[1].a[0] is x0 or settle(f, y[1].a[0]) is x1)

    def isv_(k, y):
        return known(k, y) or (k == "fact" and y[1].op == "is" and y[0] and (y[1].a[0] is x0) and str(y[1].a[1]).split("::")[-1] in (("Ok", "Some") if want else ("Err",)))
    if f.holds_at(n, isv_, 0):
        rep.ok(key, n.where, "known to be there")
        return
    if x1.op == "phi" and all(y.op == "agg" and (y.a[0] in OKV) == want for y in f.alts(x1)):
        return
    if x1.op == "tryconv" and fits(f, x1):
        rep.ok(key, n.where, "length agrees")
        return
    if x1.op == "next" and x1.a[0].op == "call" and x1.a[0].a[0].split("::")[-1] in ("split", "rsplit", "splitn", "rsplitn"):
        # the first part of a text is always there
        nx = [c for c in f.order if c.call is not None and mname(c) in ("next", "next_back") and c.call.args and settle(f, c.call.args[0]) is x1.a[0]]
        if len(nx) == 1 and nx[0] not in f.reach(list(nx[0].succ)):
            rep.ok(key, n.where, "the first part of a text")
        else:
            rep.unk(key, "a part of a text", n.where)
        return
    parts = {s for s in subterms(x1) if s.op in ("decode", "getslice", "get", "mapget", "chk", "readbytes")} | {x0, x1}
    near = [a for _, a in f.facts_at(n) if a.op not in ("isok",) and parts & set(subterms(settle(f, a)))] if x1.op in ("getslice", "get", "chk", "tryconv", "mapget", "first", "last", "index") else []
    if near:
        rep.unk(key, "unwrap of %s" % show(x1, 5), n.where)
    else:
        rep.bad(key, "panics when %s is missing, as happens with a damaged dump" % show(x1, 4), n.where)


def fits(f, t):
    """array of k bytes made of a slice of k bytes"""
    k = t.a[0]
    s = t.a[1]
    if "; " in k:
        try:
            k = int(k.split("; ")[1].rstrip("]"))
        except ValueError:
            return False
        d = extent(f, s)
        return d is not None and d is I(k)
    return False


def extent(f, s):
    s = settle(f, s)
    while s.op in ("copy", "bytescopy", "coll"):
        s = settle(f, s.a[0])
    if s.op == "pay" and s.a[0].op == "phi":
        ds = {extent(f, pay(x)) for x in f.alts(s.a[0]) if not (x.op == "agg" and x.a[0] in NOKV)}
        return ds.pop() if len(ds) == 1 else None
    if s.op == "pay" and s.a[0].op == "optmap":
        return None
    if s.op == "pay" and s.a[0].op == "getslice":
        s = s.a[0]
    if s.op in ("slice", "getslice"):
        return minus(s.a[2], s.a[1])
    if s.op == "from_elem":
        return s.a[1]
    if s.op == "encode":
        return I(PRIM_SIZE[s.a[1]]) if s.a[1] in PRIM_SIZE else None
    if s.op == "agg" and s.a[0] == "array":
        return I(len(s.a[1]))
    if s.op == "readbytes":
        return s.a[2]
    if s.op == "phi":
        ds = {extent(f, x) for x in f.alts(s)}
        return ds.pop() if len(ds) == 1 else None
    return None


def array_size(f, s):
    """size of the array written by copy_from_slice: the declared one"""
    todo, seen, sizes = [s], set(), set()
    while todo:
        x = settle(f, todo.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            todo += list(f.alts(x))
        elif x.op == "bytescopy":
            e = extent(f, x)
            if e is None or e.op != "int":
                return None
            sizes.add(e)
        elif x.op == "from_elem" and x.a[1].op == "int":
            sizes.add(x.a[1])
        elif x.op == "agg" and x.a[0] == "array":
            sizes.add(I(len(x.a[1])))
        else:
            return None
    # an array keeps its size: two different ones cannot both be right
    return sorted(sizes, key=lambda x: x.a[0]) if sizes else None


def linear(t):
    """{atom: coefficient} of a sum"""
    out = {}

    def go(x, c):
        if x.op == "bin" and x.a[0] in ("Add", "Sub"):
            go(x.a[1], c)
            go(x.a[2], c if x.a[0] == "Add" else -c)
        elif x.op == "cast":
            go(x.a[1], c)
        elif x.op == "int":
            out[None] = out.get(None, 0) + c * x.a[0]
        else:
            out[x] = out.get(x, 0) + c
    go(t, 1)
    return {k: v for k, v in out.items() if v}


def minus(a, b):
    d = linear(a)
    for k, v in linear(b).items():
        d[k] = d.get(k, 0) - v
    d = {k: v for k, v in d.items() if v}
    if set(d) <= {None}:
        return I(d.get(None, 0))
    if len(d) == 1:
        k, v = next(iter(d.items()))
        if v == 1:
            return k
    return binop("Sub", a, b)


def copied(w, rep, pre, f, taint, n, a):
    if not taint(settle(f, a[1])) and not taint(settle(f, a[0])):
        return
    xs = array_size(f, a[0]) or [extent(f, a[0])]
    x, y = xs[0], extent(f, a[1])
    if len(xs) > 1:
        x, y = ([z for z in xs if z is not y] or xs)[0], y if y is not None else xs[-1]
    key = pre + "copy:" + spot(n)
    if x is not None and x is y:
        rep.ok(key, n.where, "equal lengths")
    elif x is not None and y is not None and x.op == "int" and y.op == "int":
        rep.bad(key, "copies %s bytes into %s: this always panics" % (show(y), show(x)), n.where)
    else:
        rep.unk(key, "lengths %s and %s" % (x and show(x, 5), y and show(y, 5)), n.where)


def nonzero(w, rep, key, f, n, v, msg):
    x = val(f, v)

    def pred(k, y):
        if k != "fact":
            return False
        pol, a = y
        if a.op == "eq" and not pol:
            return {val(f, a.a[0]), val(f, a.a[1])} == {x, I(0)}
        if a.op == "lt":
            return pol and val(f, a.a[1]) is x or (not pol and val(f, a.a[0]) is x and a.a[1].op == "int" and a.a[1].a[0] >= 1)
        return False
    if f.holds_at(n, pred, 0):
        rep.ok(key, n.where, "not zero")
    elif x.op == "decode":
        rep.bad(key, msg, n.where)
    else:
        rep.unk(key, "value %s" % show(x, 5), n.where)


def size_of_coll(w, f, c):
    """known number of elements of c, or None"""
    c = settle(f, c)
    if c.op == "from_elem" and c.a[1].op == "int":
        return c.a[1].a[0]
    if c.op == "agg" and c.a[0] == "array":
        return len(c.a[1])
    if c.op == "new" and c.a[0] == "Vec":
        ev = events(f, c)
        last = [n for n in ev if mname(n) in ("resize", "resize_with") and len(n.call.args) > 1 and n.call.args[1].op == "int"]
        if len(last) == 1 and not any(mname(n) in SHRINK and n is not last[0] for n in ev):
            return last[0].call.args[1].a[0]
    if c.op == "prot":
        g = c.a[0]
        o = g.a[0] if g.op == "guard" else g
        if o.op == "field" and o.a[1] == w.pf["nb"]:
            n = lists_per_point(w)
            if n is not None and n.op == "int":
                return n.a[0]
    return None


def index(w, rep, pre, f, taint, bd, n, c, i):
    key = pre + "index:" + spot(n)
    c1, i1 = settle(f, c), settle(f, i)
    if i1.op == "agg" and i1.a[0].startswith("Range"):
        ends = [x for x in (agg_get(i1, "start"), agg_get(i1, "end")) if x is not None]
        if len(ends) == 2:
            d = minus(val(f, ends[1]), val(f, ends[0]))
            if d.op in ("len", "decode") or d.op == "int" and d.a[0] >= 0 or d.op == "call":
                ends = ends[1:]
        if not any(taint(x) for x in ends) and not (taint(c1) and any(str_pos(x, f) is None for x in ends)):
            return
        for x in ends:
            ok = str_pos(x, f)
            if ok is None:
                ok, why = slice_end(f, taint, bd, n, c1, x)
            else:
                why = "position %s of a text" % show(x, 5)
            rep.tri(ok, key + ("" if x is ends[-1] else ":start"), "a position not known to be within the bytes: %s" % why, n.where, okmsg="within")
        return
    if n.call.argtys and "HashMap" in w.prog.ts(n.call.argtys[0]) or n.call.argtys and "IndexMap" in w.prog.ts(n.call.argtys[0]):
        if not taint(i1):
            return

        def has(k, y):
            return k == "fact" and y[0] and (y[1].op in ("isok",) and y[1].a[0].op == "mapget" and settle(f, y[1].a[0].a[1]) is i1 or y[1].op == "contains" and i1 in y[1].a)
        if f.holds_at(n, has, 0):
            rep.ok(key, n.where, "present")
        else:
            rep.unk(key, "key %s" % show(i1, 5), n.where)
        return
    if not taint(i1):
        return
    size = size_of_coll(w, f, c1)
    st, why = within(w, f, taint, bd, n, c1, i1, size)
    rep.tri(st, key, "a position read from a file can be outside of what is indexed: %s" % why, n.where, okmsg="within")


def str_pos(x, f=None):
    """position found in the text itself"""
    if x.op == "phi" and f is not None and choice(f, x):
        r = {str_pos(y, f) for _, y in f.phi_in[x]}
        return None if None in r else all(r)
    if x.op == "int" and x.a[0] == 0:
        return True
    if x.op == "len":
        return True
    if x.op == "unwrap_or":
        a, b = str_pos(pay(x.a[0])), str_pos(x.a[1])
        return a and b if a is not None and b is not None else None
    if x.op == "pay" and x.a[0].op == "call" and x.a[0].a[0].split("::")[-1] in ("find", "rfind"):
        return True
    if x.op == "pay" and x.a[0].op == "optmap":
        return str_pos(x.a[0].a[1])
    if x.op == "bin" and x.a[0] == "Add":
        for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
            if a.op == "int" and b.op == "pay" and b.a[0].op == "call" and b.a[0].a[0].split("::")[-1] in ("find", "rfind"):
                p = b.a[0].a[-1]
                if p.op == "str":
                    return a.a[0] <= len(str(p.a[0]))
                if p.op == "int":
                    return a.a[0] <= 1
    return None


def slice_end(f, taint, bd, n, c, x):
    v = val(f, x)
    ext = extent(f, c)

    def all_of(p):
        return p.op == "len" and settle(f, p.a[0]) is c or (ext is not None and p is ext)

    def pred(k, y):
        if k != "fact":
            return False
        pol, a = y
        if a.op == "lt":
            p, q = val(f, a.a[0]), val(f, a.a[1])
            if not pol and q is v and all_of(p):
                return True
            if pol and p is v and all_of(q):
                return True
        if a.op == "isok" and pol and a.a[0].op == "getslice" and settle(f, a.a[0].a[0]) is c:
            return v in (val(f, a.a[0].a[1]), val(f, a.a[0].a[2]))
        return False
    if v.op == "len" and settle(f, v.a[0]) is c:
        return True, ""
    if not taint(v) and v.op != "int":
        return True, ""
    if f.holds_at(n, pred, 0):
        return True, ""
    st = from_facts(f, n, v, c, ext)
    if st is not None:
        return st
    if v.op == "int":
        e = extent(f, c)
        if e is not None and e.op == "int":
            return v.a[0] <= e.a[0], "%d of %d" % (v.a[0], e.a[0])

        def pl(k, y):
            return k == "fact" and y[1].op in ("lt", "eq") and any(s.op == "len" and settle(f, s.a[0]) is c for s in subterms(y[1]))
        return (None, "length tested") if f.holds_at(n, pl, 0) else (False, "position %d" % v.a[0]) if e is None and c.op in ("readbytes", "bytescopy") and c.a[-1].op != "int" else (None, "position %d" % v.a[0])
    atoms = set(linear(v)) - {None}
    cmp_ = [a for _, a in f.facts_at(n) if (a.op in ("lt", "call", "contains") or a.op == "isok" and a.a[0].op in ("getslice", "get")) and
            any(x in set(subterms(settle(f, a))) for x in atoms if x.op not in ("int",)) and
            any(y.op == "len" or y is ext or y.op == "getslice" for y in subterms(settle(f, a)))]
    if cmp_:
        return None, show(v, 6)
    return (False, show(v, 6)) if any(taint(x) for x in atoms) else (None, show(v, 6))


def outside_contents(t):
    """subterms of t, but those saying where bytes come from"""
    if t.op in ("bytescopy", "decode", "readbytes", "next") or t.op == "isok" and t.a[0].op == "call" and any(t.a[0].a[0].endswith(x) for x in FILES):
        return
    yield t
    for x in t.a:
        for y in x if isinstance(x, tuple) else (x,):
            if hasattr(y, "op"):
                yield from outside_contents(y)


def from_facts(f, n, v, c, ext):
    """is v at most the length of c, from comparisons with that length; None when some other test can matter"""
    if ext is not None and ext.op == "int":
        return None
    whole_ = {x for x in (ext,) if x is not None}
    root = c
    while root.op in ("slice", "copy", "coll"):
        root = settle(f, root.a[0])
    if ext is None or root.op != "call" or root.a[0].split("::")[-1] not in ("as_slice", "deref"):
        # bytes read: nothing to gain
        if c.op not in ("slice",):
            return None

    def norm_(t):
        out = {}
        for k, x in linear(val(f, t)).items():
            if k is not None and k.op == "len" and settle(f, k.a[0]) is c:
                k = ext if ext is not None else T("len", c)
            out[k] = out.get(k, 0) + x
        return out

    if ext is None:
        whole_ = {T("len", c)}
    target = norm_(v)
    for e in whole_:
        target[e] = target.get(e, 0) - 1
    atoms = {k for k in target if k is not None}
    cmps = []
    for pol, a in f.facts_at(n):
        if a.op == "lt":
            x, y = norm_(a.a[0]), norm_(a.a[1])
            d = dict(x)
            for k, z in y.items():
                d[k] = d.get(k, 0) - z
            if not pol:
                d = {k: -z for k, z in d.items()}
            # d < 0 (pol) or d <= 0
            rest = dict(target)
            for k, z in d.items():
                rest[k] = rest.get(k, 0) - z
            rest = {k: z for k, z in rest.items() if z}
            if set(rest) <= {None} and rest.get(None, 0) <= (1 if pol else 0):
                return True, ""
            ks = {k for k, z in d.items() if k is not None and z}
            cmps.append(ks)
        elif any(s in whole_ or s.op in ("getslice",) or s.op == "len" and settle(f, s.a[0]) is c
                 for s in outside_contents(settle(f, a))):
            return None
    # bounds got through another number
    linked, more = atoms - whole_, True
    while more:
        more = set().union(*[ks - whole_ for ks in cmps if ks & linked] or [set()]) - linked
        linked |= more
    if any(ks & whole_ and ks & linked - atoms for ks in cmps):
        return None
    return False, show(v, 6)


def within(w, f, taint, bd, n, c, i, size, depth=0):
    """is position i known to be within c (of known size, or None) at node n?"""
    v = val(f, i)

    def pred(k, y):
        if k != "fact":
            return False
        pol, a = y
        if a.op == "lt" and pol and val(f, a.a[0]) is v and a.a[1].op == "len" and settle(f, a.a[1].a[0]) is c:
            return True
        if a.op == "isok" and pol and a.a[0].op == "get" and settle(f, a.a[0].a[0]) is c and val(f, a.a[0].a[1]) is v:
            return True
        if a.op == "eq" and pol:
            x, z = val(f, a.a[0]), val(f, a.a[1])
            o = z if x is v else x if z is v else None
            return o is not None and (o.op in ("elem", "pos") or o.op == "len")
        return False
    if v.op == "pos":
        return count_within(w, f, taint, bd, n, v.a[0], size, depth)
    if f.holds_at(n, pred, 0):
        return True, ""
    st = signed_within(f, n, c, i, v)
    if st is not None:
        return st
    st, m = bd.upper(n, v)
    if st and m is not None and size is not None:
        return (True, "") if m < size else (False, "up to %d in %d elements" % (m, size))
    if v.op == "elem" and v.a[0].op == "agg" and v.a[0].a[0] == "Range":
        e = val(f, agg_get(v.a[0], "end"))
        if e.op == "len":
            if settle(f, e.a[0]) is c:
                return True, ""
            return count_within(w, f, taint, bd, n, e.a[0], size, depth)
        return None, "loop on %s" % show(v.a[0], 5)
    # an element of a collection: what was put there
    if depth < 3 and (v.op == "field" or v.op == "elem"):
        os_ = origins(f, v)
        if os_:
            rs = [within(w, f, taint, bd, g if g is not None else n, c, e, size, depth + 1) for e, g in os_ if e is not v]
            for s in (False, None):
                for r in rs:
                    if r[0] is s:
                        return r
            if rs:
                return True, ""
    if st is False:
        return False, "%s" % m
    return None, show(v, 6)


def signed_within(f, n, c, i, v):
    """a signed number compared as such with the number of elements: what is below zero?"""
    if v.op != "decode" or not str(v.a[1]).startswith("i"):
        return None

    def signed(x):
        while x.op in ("cast", "copy"):
            if x.op == "cast" and str(x.a[0]).startswith("u"):
                return False
            x = x.a[-1] if x.op == "cast" else x.a[0]
        return True

    def above(k, y):
        if k != "fact" or y[1].op != "lt" or not y[0]:
            return False
        x, z = y[1].a
        return val(f, x) is v and signed(x) and z.op == "cast" and z.a[-1].op == "len" and settle(f, z.a[-1].a[0]) is c

    def about(k, y):
        if k != "fact" or y[1].op not in ("lt", "eq", "isok", "call", "is"):
            return False
        return any(val(f, x) is v for x in y[1].a if isinstance(x, Term)) and not above(k, y) or \
            y[1].op in ("isok", "is") and v in set(subterms(settle(f, y[1])))
    if not f.holds_at(n, above, 0):
        return None
    if any(about("fact", y) for y in f.facts_at(n)):
        return None, "comparisons of %s" % show(v, 4)
    return False, "%s can be below zero" % show(v, 4)


def count_within(w, f, taint, bd, n, seq, size, depth):
    """is the number of elements of seq at most size?"""
    seq = settle(f, seq)
    while seq.op in ("coll", "copy", "enum", "rev", "sorted"):
        seq = settle(f, seq.a[0])
    if seq.op in ("field", "elem") and depth < 3:
        os_ = origins(f, seq)
        rs = [count_within(w, f, taint, bd, g if g is not None else n, e, size, depth + 1) for e, g in os_ or () if e is not seq]
        for s in (False, None):
            for r in rs:
                if r[0] is s:
                    return r
        return (True, "") if rs else (None, show(seq, 5))
    if seq.op != "new" or size is None:
        return None, show(seq, 5)
    total, most = I(0), 0
    for g in events(f, seq):
        if mname(g) not in GROW:
            continue
        if mname(g) not in ("push", "push_back"):
            return None, "%s of the list" % mname(g)
        cre = node_by_id(f, seq.a[1])
        around = {s for _, s in loop_nexts(f, cre)} if cre is not None else set()
        ls = [it for it, s in loop_nexts(f, g) if s not in around]
        if len(ls) > 1:
            return None, "nested loops"
        if not ls:
            total, most = binop("Add", total, I(1)), most + 1
        for it in ls:
            it = settle(f, it)
            if it.op != "agg" or agg_get(it, "end") is None:
                return None, "loop on %s" % show(it, 5)
            e, b = val(f, agg_get(it, "end")), val(f, agg_get(it, "start"))
            st, m = bd.upper(g, e)
            if not st or m is None:
                return (False, "up to %s lists" % show(e, 4)) if st is False else (None, "loop to %s" % show(e, 5))
            m = m + (1 if "Inclusive" in it.a[0] else 0)
            if m > size:
                return False, "up to %d lists for %d" % (m, size)
            most += m
            total = binop("Add", total, minus(e, b)) if "Inclusive" not in it.a[0] else binop("Add", I(1), binop("Add", total, minus(e, b)))
    d = linear(total)
    if set(d) <= {None} and d.get(None, 0) <= size or most <= size:
        return True, ""
    return False, "up to %d lists for %d" % (most, size)


def origins(f, t, depth=0):
    """[(value, node or None)] put into the collections t is an element of; None when it cannot be read"""
    t = settle(f, t)
    if depth > 8:
        return None
    if t.op in ("copy", "coll", "enum", "rev", "sorted", "copied"):
        return origins(f, t.a[0], depth + 1)
    if t.op == "field":
        o = origins(f, t.a[0], depth + 1)
        if o is None:
            return None
        out = []
        for v, g in o:
            x = agg_get(v, t.a[1]) if v.op == "agg" else T("field", v, t.a[1])
            if x is None:
                return None
            x = settle(f, x)
            if x.op in ("field", "elem") and x is not t:
                more = origins(f, x, depth + 1)
                out += [(y, h if h is not None else g) for y, h in more] if more else [(x, g)]
            else:
                out.append((x, g))
        return out
    if t.op == "elem":
        o = origins(f, t.a[0], depth + 1)
        if o is None:
            return None
        out = []
        for c, g in o:
            while c.op in ("copy", "coll", "enum", "rev", "sorted", "copied"):
                c = settle(f, c.a[0])
            if c.op == "new":
                for e in events(f, c):
                    if mname(e) in ("push", "insert", "push_back"):
                        a = e.call.args
                        v = agg("tuple", ("0", "1"), (a[1], a[2])) if len(a) == 3 and c.a[0] != "Vec" else a[-1]
                        out.append((settle(f, v), e))
                    elif mname(e) in GROW and not (mname(e).startswith("resize") or mname(e) == "reserve"):
                        return None
            else:
                return None
        return out
    return [(t, None)]


def branch(f, n):
    """facts of the nearest branch leading to n"""
    out, seen, st = [], set(), list(n.pred)
    if n.facts:
        return [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.facts or x is f.entry:
            out.append(x)
            continue
        if len(x.succ) > 1:
            out.append(x)
            continue
        st.extend(x.pred)
    return out


def stop_(w, rep, pre, f, taint, bd, n):
    """an assertion, a panic or an exit"""
    what = n.x[0] if n.x else "panic"
    key = pre + "panic:" + spot(n)
    if str(what).startswith("assert:"):
        cond = [a for p in n.pred for s in p.succ if s is not n for _, a in s.facts]
        if not cond:
            return
        tt = [a for a in cond if taint(settle(f, a))]
        if not tt:
            return
        a = tt[0]
        if "bounds" in what and a.op == "eq" and I(0) in a.a and any(x.op == "len" for x in a.a):
            c = settle(f, next(x for x in a.a if x.op == "len").a[0])
            if c.op == "pay" and c.a[0].op == "call" and c.a[0].a[0].startswith("String::from_utf8"):
                c = settle(f, c.a[0].a[-1])
            if c.op == "readbytes" and taint(c.a[-1]):
                at = n.pred[0]
                def harmless(y):
                    """excludes no short text"""
                    z = y[1]
                    return z.op in ("isok", "is") or z.op == "lt" and (z.a[1].op == "int" and y[0] or z.a[0].op == "int" and not y[0])
                if any(c in set(subterms(settle(f, y[1]))) or c.a[-1] in set(subterms(settle(f, y[1]))) for y in f.facts_at(at) if y[1] is not a and not harmless(y)):
                    rep.unk(key, "the first of %s" % show(c, 4), n.where)
                else:
                    rep.bad(key, "takes the first of %s, which can be empty" % show(c, 4), n.where)
                return
        if "bounds" in what and a.op == "lt":
            c = a.a[1]
            size = c.a[0] if c.op == "int" else None
            coll = settle(f, c.a[0]) if c.op == "len" else c
            st, why = within(w, f, taint, bd, n, coll, settle(f, a.a[0]), size)
            rep.tri(st, pre + "index:" + spot(n), "a position read from a file can be outside: %s" % why, n.where, okmsg="within")
            return
        if "divzero" in what and a.op == "eq":
            v = a.a[1] if a.a[0].op == "int" else a.a[0]
            nonzero(w, rep, pre + "division:" + spot(n), f, n, v, "divides by a number read from the file, which can be 0")
            return
        if f.holds_at(n, lambda k, y: k == "fact" and y[1] is a, 0):
            return
        rep.unk(key, "assertion %s" % show(a, 6), n.where)
        return
    bs = branch(f, n)
    fs = [a for b in bs for _, a in b.facts]
    if fs and not any(taint(settle(f, a)) for a in fs):
        return
    if not fs and bs and all(b is f.entry for b in bs) and False:
        return
    rep.bad(key, "%s reached because of what the file holds or lacks%s" % (str(what).split("::")[-1], ": " + show(fs[0], 5) if fs else ""), n.where)


def sorts(w, rep, pre, f, taint):
    """sorting links panics on a distance that is not a number"""
    if not any(n.call is not None and mname(n) in SORTS and not mname(n).endswith(("by", "by_key")) for n in f.order):
        return
    for n in f.order:
        if n.call is None or mname(n) not in GROW or len(n.call.args) < 2:
            continue
        v = settle(f, n.call.args[-1])
        while v.op in ("copy",):
            v = settle(f, v.a[0])
        if v.op != "agg" or v.a[0] != w.pwo_name:
            continue
        d = val(f, agg_get(v, w.pwo_d))
        if not taint(d):
            continue

        def number(k, y):
            if k != "fact":
                return False
            pol, a = y
            if a.op == "is" and val(f, a.a[0]) is d:
                return not pol if a.a[1] == "nan" else pol and str(a.a[1]) in ("finite", "normal")
            if a.op == "call" and a.a[0].split("::")[-1] in ("is_finite", "is_normal"):
                return pol and val(f, a.a[-1]) is d
            if a.op in ("lt",):
                return pol and d in (val(f, a.a[0]), val(f, a.a[1]))
            return a.op == "eq" and pol and set(a.a) == {d}
        key = pre + "nan:" + spot(n)
        if f.holds_at(n, number, 0):
            rep.ok(key, n.where, "a number")
        elif any(d in set(subterms(settle(f, a))) for _, a in f.facts_at(n) if a.op in ("is", "call", "lt", "eq")):
            rep.unk(key, "tests on the distance", n.where)
        else:
            rep.bad(key, "links are sorted though a distance read from the file may not be a number, which panics", n.where)


def loops(w, rep, pre, f, taint, bd):
    """loops as long as the file says: each turn reads something or allocates nothing"""
    from .persist import Region
    reg = Region(f)
    done = set()
    for n in f.order:
        for pol, a in n.facts:
            if not (pol and a.op == "isok" and a.a[0].op == "next") or a.a[0].a[1] in done:
                continue
            it, site = a.a[0].a
            done.add(site)
            it = settle(f, it)
            while it.op in ("map", "rev", "enum", "copy"):
                it = it.a[0]
            if it.op != "agg" or agg_get(it, "end") is None or not taint(settle(f, agg_get(it, "end"))):
                continue
            end = agg_get(it, "end")
            st, m = bd.upper(n, end)
            if st:
                continue
            key = pre + "loop:" + spot(n)
            grows = [x for x in f.order if x.call is not None and mname(x) in GROW and inside(f, x, site) and f.dominates(n, x)]
            if not grows:
                rep.ok(key, n.where, "nothing grows")
                continue
            reads = [x for x in f.order if x.call is not None and mname(x) in ("read_exact", "read_to_end", "read") and inside(f, x, site) and f.dominates(n, x)]
            every = [x for x in reads if mname(x) == "read_exact" and reg.every_turn(site, x)]
            if every:
                rep.ok(key, n.where, "each turn reads from the file")
            elif reads:
                rep.unk(key, "a turn may read nothing", n.where)
            elif any(x.call is not None and mname(x) in ("load_description", "from_hnswdump") for x in f.order if inside(f, x, site)):
                rep.unk(key, "calls in the loop", n.where)
            else:
                rep.bad(key, "memory grows as many times as a number read from the file says, without reading", n.where)


def fresh(t, seen):
    """subterms of t not seen before"""
    out, st = [], [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        st.extend(y for y in x.a if isinstance(y, Term))
    return out


def arith(w, rep, pre, f, taint, bd):
    """sums and products of numbers read"""
    seen, parts = set(), set()
    chks = set()
    for y in f.order:
        for _, z in y.facts:
            if z.op == "isok":
                chks |= {(x.a[0], frozenset(x.a[1:3])) for x in fresh(z, parts) if x.op == "chk"}
    parts = set()
    for n in f.order:
        if is_log(n.span):
            continue
        ts = []
        if n.call is not None:
            ts += list(n.call.args)
        ts += [a for _, a in n.facts] + [v for _, v in n.stores]
        for t in ts:
            for s in fresh(t, parts):
                if s.op != "bin" or s.a[0] not in ("Add", "Mul", "Sub", "Shl") or s in seen:
                    continue
                seen.add(s)
                big = [x for x in s.a[1:3] if val(f, x).op == "decode" and (s.a[0] == "Sub" or val(f, x).a[1] in ("u64", "usize", "i64", "u32", "i32", "isize"))]
                if not big or s.a[0] == "Sub" and big == [s.a[2]] and s.a[1].op == "int" and False:
                    continue
                key = pre + "overflow:%s" % spot(n)

                def safe(k, y, s=s):
                    if k != "fact" or y[1].op != "isok" or not y[0]:
                        return False
                    x = y[1].a[0]
                    return x.op == "chk" and x.a[0] == s.a[0] and set(x.a[1:3]) == set(s.a[1:3]) or x.op in ("getslice", "get") and s in set(subterms(x))
                if (s.a[0], frozenset(s.a[1:3])) in chks or f.holds_at(n, safe, 0):
                    rep.ok(key, n.where, "checked")
                    continue
                rs = [bd.upper(n, x) for x in s.a[1:3]] if s.a[0] != "Sub" else [below(f, n, s.a[2], s.a[1])]
                if all(r[0] for r in rs):
                    rep.ok(key, n.where, "bounded")
                elif any(r[0] is None for r in rs):
                    rep.unk(key, "operation %s" % show(s, 5), n.where)
                else:
                    rep.bad(key, "%s of a number read from the file overflows" % {"Add": "sum", "Mul": "product", "Sub": "difference", "Shl": "shift"}[s.a[0]], n.where)


def below(f, n, x, y):
    """x <= y known at n?"""
    a, b = val(f, x), val(f, y)

    def pred(k, z):
        if k != "fact":
            return False
        pol, q = z
        if q.op == "lt":
            u, v = val(f, q.a[0]), val(f, q.a[1])
            return pol and u is a and v is b or not pol and u is b and v is a
        return q.op == "eq" and pol and {val(f, q.a[0]), val(f, q.a[1])} == {a, b}
    if f.holds_at(n, pred, 0):
        return True, None
    about = [q for _, q in f.facts_at(n) if q.op in ("lt", "eq", "call") and a in set(subterms(settle(f, q)))]
    return (None, "tests on %s" % show(a, 4)) if about else (False, show(a, 4))
