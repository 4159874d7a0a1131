"""What a function writes to or reads from its files, in order, and the matching of a writer with a reader."""
from .common import *
from .norm import *
from .compr import subst, rebuild, decode, PW, contents, full_index_range
from engine.flow import OKV, NOKV, T, Term
from engine.flow import elem as mkelem


class Unclear(Exception):
    """the sequence cannot be read: nothing is concluded"""


class Mismatch(Exception):
    def __init__(self, key, msg, where=""):
        Exception.__init__(self, msg)
        self.key, self.msg, self.where = key, msg, where


# ------------------------------------------------------------------ values behind `?`
def settle(f, t):
    """t with the payload of a Result or Option that can only be one success replaced by it"""
    memo = f.__dict__.setdefault("_settled", {})
    return _settle(f, t, memo, set())


def _settle(f, t, memo, busy):
    if t in memo:
        return memo[t]
    if t in busy:
        return t
    if t.op in ("phi", "param", "int", "str"):
        return t
    busy.add(t)
    a = [_settle(f, x, memo, busy) if isinstance(x, Term) else x for x in t.a]
    r = rebuild(t.op, a) if any(x is not y for x, y in zip(a, t.a)) else t
    for _ in range(4):
        n = step(f, r, memo, busy)
        if n is r:
            break
        r = n
    busy.discard(t)
    memo[t] = r
    return r


def success_alts(f, t):
    out = []
    for x in f.alts(t):
        if x.op in ("agg",) and x.a[0] in NOKV:
            continue
        out.append(x)
    return out


def step(f, r, memo, busy):
    if r.op == "pay" and r.a[0].op == "phi":
        vals = []
        for x in success_alts(f, r.a[0]):
            v = pay(_settle(f, x, memo, busy))
            if v not in vals:
                vals.append(v)
        if len(vals) == 1:
            return _settle(f, vals[0], memo, busy)
        if vals and all(v.op == "agg" for v in vals):
            return T("choice", *sorted(vals, key=lambda v: v.id))
    if r.op == "pay" and r.a[0].op == "agg" and r.a[0].a[0] in OKV:
        return pay(r.a[0])
    if r.op == "field" and r.a[0].op == "phi":
        vals = []
        for x in f.alts(r.a[0]):
            v = _settle(f, x, memo, busy)
            v = agg_get(v, r.a[1]) if v.op == "agg" else None
            if v is None:
                return r
            if v not in vals:
                vals.append(v)
        if len(vals) == 1:
            return vals[0]
    if r.op == "field" and r.a[0].op == "choice":
        vals = []
        for x in r.a[0].a:
            v = agg_get(x, r.a[1]) if x.op == "agg" else T("field", x, r.a[1])
            if v is None:
                return r
            v = _settle(f, v, memo, busy)
            if v not in vals:
                vals.append(v)
        return vals[0] if len(vals) == 1 else T("choice", *sorted(vals, key=lambda v: v.id))
    return r


# ------------------------------------------------------------------ streams
WRITE = ("write_all",)
READ = ("read_exact", "read_to_end")


def stream_key(f, t):
    """(constant end of the name, opening site) of the file behind a reader or writer"""
    t = settle(f, t)
    for x in sorted(subterms(t), key=lambda x: x.id):
        if x.op == "call" and x.a[0].split("::")[-1] in ("open", "create", "create_new") and len(x.a) > 2:
            p = settle(f, x.a[-1])
            e = name_end(f, p)
            return (e, x.a[1]) if e is not None else None
    return None


def streams(f, which):
    """(name end, opening site) -> nodes reading or writing it"""
    out = {}
    for n in f.order:
        d = direction(f, n)
        if d is None:
            continue
        s = n.call.args[0]
        k = stream_key(f, s.a[0] if s.op == "take" else s)
        if k is None:
            raise Unclear("the file behind %s at %s" % (show(s, 4), n.where))
        out.setdefault(k, []).append(n)
    return out


def main_stream(f, which, name):
    """the opening of a file of that name with the most accesses"""
    c = {k: v for k, v in streams(f, which).items() if k[0] == name}
    if not c:
        raise Mismatch("missing", "no file named *%s is %s" % (name, "read" if which == "r" else "written"))
    return max(c, key=lambda k: len(c[k]))


def name_end(f, p):
    if p.op in ("join",):
        return name_end(f, p.a[-1])
    if p.op == "cat":
        e = p.a[-1]
        return e.a[0] if e.op == "str" else None
    if p.op == "str":
        return p.a[0]
    if p.op == "phi":
        k = {name_end(f, x) for x in f.alts(p)}
        return k.pop() if len(k) == 1 else None
    return None


class Ev:
    """one write or read"""

    def __init__(self, node, value, width, kind):
        self.node, self.value, self.width, self.kind = node, value, width, kind

    def __repr__(self):
        return "%s %s" % ("/".join(str(x) for x in self.kind or ("bytes",)), show(self.value, 5))


class Loop:
    def __init__(self, site, it, items):
        self.site, self.it, self.items = site, it, items

    def __repr__(self):
        return "LOOP %s %r" % (show(self.it, 4), self.items)


def direction(f, n):
    if n.call is None:
        return None
    ty, m = n.call.name.split("::")[-2:] if "::" in n.call.name else ("", n.call.name)
    if m in WRITE and ty == "Write":
        return "w"
    if m in READ and ty == "Read":
        return "r"
    if ty in ("Write", "Read", "WriteBytesExt", "ReadBytesExt") and m not in ("flush", "take", "by_ref", "bytes"):
        return "?"
    return None


class Wire:
    """events of one stream in a flow"""

    def __init__(self, f, key, which):
        self.f, self.key = f, key
        self.which = which
        self.ev = {}
        self.streams = {}
        self.bad = bad_edges(f)
        unknown = 0
        for n in f.order:
            d = direction(f, n)
            if d is None:
                continue
            s = n.call.args[0]
            if s.op == "take":
                s = s.a[0]
            k = self.streams.get(s, 0)
            if k == 0:
                k = self.streams[s] = stream_key(f, s)
            if k is None:
                raise Unclear("the file behind %s at %s" % (show(s, 4), n.where))
            if k != key:
                continue
            if d == "?":
                raise Unclear("%s at %s" % (n.call.name, n.where))
            if d != which:
                raise Unclear("reads and writes of one file at %s" % n.where)
            self.ev[n] = self.event(n)
        self.sites = {}
        for n in self.ev:
            ls = loop_nexts(f, n)
            heads = {node_by_id(f, s) for _, s in ls}
            if in_cycle(f, n, lambda x: x in heads):
                raise Unclear("%s is repeated by a loop that is not read" % n.where)
            for it, s in ls:
                self.sites[s] = it
        self.heads = {node_by_id(f, s): s for s in self.sites}

    def event(self, n):
        f = self.f
        if self.which == "w":
            b = settle(f, n.call.args[1])
            if b.op == "encode":
                return Ev(n, b.a[2], I(PW.get(b.a[1], 0)), (b.a[0], b.a[1]))
            return Ev(n, b, length(b), None)
        if mname(n) == "read_to_end":
            s = n.call.args[0]
            if s.op != "take":
                raise Unclear("reads the rest of the file at %s" % n.where)
            return Ev(n, n.call.args[1], settle(f, s.a[1]), None)
        ln = length(n.call.args[1])
        return Ev(n, T("readbytes", n.id, n.call.args[0], ln), settle(f, ln), None)

    # ---- walking
    def succ(self, n):
        for s in n.succ:
            if (n, s) not in self.bad and not failing_edge(s):
                yield s

    def hits(self, starts, stop):
        """first events, loops or ends reached from starts"""
        out, seen, st = [], set(), list(starts)
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            if failing_edge(n):
                continue
            if n is stop:
                out.append("end")
            elif n in self.heads:
                out.append(n)
            elif n in self.ev:
                out.append(n)
            elif n is self.f.exit:
                out.append("end" if stop is None else "exit")
            else:
                st.extend(self.succ(n))
        return sorted(set(out), key=lambda x: -1 if x == "end" else -2 if x == "exit" else self.f.rpo[x])

    def body(self, head):
        f, s = self.f, self.heads[head]
        ins = [n for n in f.order if f.hof_loop.get(n.id, (0, None))[1] == s]
        for n in f.order:
            for pol, a in n.facts:
                if pol and a.op == "isok" and a.a[0].op == "next" and a.a[0].a[1] == s:
                    ins.append(n)
        return ins

    def after(self, head):
        f, s = self.f, self.heads[head]
        out = []
        for n in f.order:
            for pol, a in n.facts:
                if not pol and a.op == "isok" and a.a[0].op == "next" and a.a[0].a[1] == s:
                    out.append(n)
        if not out:
            hof = [n for n in f.order if f.hof_loop.get(n.id, (0, None))[1] == s]
            out = [x for x in self.succ(head) if x not in hof]
        return out

    def sequence(self, starts=None, stop=None):
        """the writer's items; raises Unclear when they depend on something"""
        starts = [self.f.entry] if starts is None else starts
        items = []
        while True:
            h = self.hits(starts, stop)
            if "exit" in h:
                h.remove("exit")
            if not h or h == ["end"]:
                return items
            if len(h) > 1:
                evs = [x for x in h if x in self.ev]
                if len(evs) == len(h) and len({self.ev[x].kind for x in evs}) == 1 and \
                        len({(self.ev[x].value, self.ev[x].width) for x in evs}) == 1:
                    items.append(self.ev[evs[0]])
                    starts = [s for x in evs for s in self.succ(x)]
                    continue
                raise Unclear("what is written depends on a condition: %s" %
                              ", ".join(x if isinstance(x, str) else x.where for x in h))
            n = h[0]
            if n in self.heads:
                lp = Loop(self.heads[n], self.sites[self.heads[n]], self.sequence(self.body(n), n))
                items += self.unrolled(lp) or [lp]
                starts = self.after(n)
            else:
                items.append(self.ev[n])
                starts = list(self.succ(n))

    def unrolled(self, lp):
        """the turns of a loop over the elements of an array written in the function"""
        it = lp.it
        while it.op in ("copy", "copied", "coll"):
            it = it.a[0]
        if it.op != "agg" or it.a[0] != "array" or not 0 < len(it.a[1]) <= 8 or any(isinstance(i, Loop) for i in lp.items):
            return None
        e = mkelem(lp.it, lp.site)
        out = []
        for x in it.a[2:]:
            for i in lp.items:
                m = {e: x}
                out.append(Ev(i.node, subst(i.value, m), subst(i.width, m), i.kind))
        return out

    def match(self, items, on_ev, on_loop, starts=None, stop=None, path=""):
        """follows every success path of the reader against the writer's items"""
        starts = [self.f.entry] if starts is None else starts
        k = 0
        while True:
            h = [x for x in self.hits(starts, stop) if x != "exit"]
            if not h:
                return
            nxt = []
            want = items[k] if k < len(items) else None
            for x in h:
                if x == "end":
                    if want is not None:
                        raise Mismatch("short" + path, "ends without reading what is written next: %r" % want,
                                       items[k].node.where if isinstance(want, Ev) else "")
                elif x in self.heads:
                    if want is None:
                        raise Mismatch("long" + path, "reads in a loop more than what is written", x.where)
                    if not isinstance(want, Loop):
                        raise Mismatch("order" + path, "reads in a loop where %r is written once" % want, x.where)
                    on_loop(self, x, self.heads[x], want)
                    self.match(want.items, on_ev, on_loop, self.body(x), x, path + "/loop")
                    nxt += self.after(x)
                else:
                    if want is None:
                        raise Mismatch("long" + path, "reads more than what is written", x.where)
                    if isinstance(want, Loop):
                        raise Mismatch("order" + path, "reads once where what is written is repeated: %r" % want, x.where)
                    on_ev(self, self.ev[x], want)
                    nxt += list(self.succ(x))
            if want is None:
                return
            starts = nxt
            k += 1


def failing_edge(n):
    return any(not pol and a.op == "isok" and a.a[0].op == "io" for pol, a in n.facts)


def bad_edges(f):
    """edges taken only when an error is going to be returned"""
    b = getattr(f, "_bad", None)
    if b is None:
        b = f._bad = set()
        for n in f.order:
            if n.kind == "tryedge" and not n.x[2]:
                b |= {(p, n) for p in n.pred}
        for ph, ins in f.phi_in.items():
            n = node_by_id(f, ph.a[0])
            if n is None:
                continue
            for p, v in ins:
                if v.op == "agg" and v.a[0] == "Result::Err" and p is not None:
                    b.add((p, n))
                elif v.op == "io" or (v.op == "call" and v.a[0].startswith("Try")):
                    pass
    return b


# ------------------------------------------------------------------ values by position
PART_OPS = ("filter", "filtermap", "skip", "take", "takewhile", "stepby", "slice", "dedup", "rev", "sorted", "flatmap", "flatten", "zip", "chainx",
            "keys", "values")


class Eval:
    """terms of a flow by position: elements of collections filled by loops become values indexed by loop positions"""

    def __init__(self, w, f, sites=None, reads=None, own=True):
        self.w, self.f, self.own = w, f, own
        self.sites = {} if sites is None else sites       # loop site -> position term
        self.reads = {} if reads is None else reads       # read site or buffer term -> what was written there
        self.memo = {}

    def pos(self, s, env):
        for k, p in env:
            if k == s:
                return p
        return self.sites.get(s) or T("lpos", s)

    def __call__(self, t, env=(), depth=0):
        if not isinstance(t, Term):
            return t
        k = (t, env)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = t        # cuts cycles
            r = self.memo[k] = self.ev(settle(self.f, t), env, depth + 1)
        return r

    def ev(self, t, env, depth):
        if depth > 60:
            return t
        o = t.op
        if t in self.reads or (o == "readbytes" and t.a[0] in self.reads):
            v = self.reads[t if t in self.reads else t.a[0]]
            m = {T("lpos", s): p for s, p in env}
            return subst(v, m) if m else v
        if o == "param":
            return T("orig", t.a[0]) if self.own else t
        if o in ("int", "float", "str", "const", "type_name", "size_of", "lpos"):
            return t
        if o == "elem":
            c = self(t.a[0], env, depth)
            p = self.pos(t.a[1], env)
            return self.at(c, p, depth)
        if o == "pos":
            return self.pos(t.a[1], env)
        if o == "index":
            return self.at(self(t.a[0], env, depth), self(t.a[1], env, depth), depth)
        if o == "new":
            g = self.growth(t)
            if g is not None:
                inner = g[1]
                env = tuple((s, p) for s, p in env if s not in inner)
            return T("newat", t, env)
        if o == "prot":
            g = t.a[0]
            return T("prot", self(g.a[0] if g.op == "guard" else g, env, depth))
        if o in ("len",):
            return self.length(self(t.a[0], env, depth), depth)
        if o == "coll" and any(mname(n) not in NEUTRAL for n in events(self.f, t)):
            return t
        if o in ("enum", "copy", "coll", "copied") :
            return self(t.a[0], env, depth)
        if o == "map" and self.map_sites(t) is not None:
            return T("mapat", t, env)
        if o == "phi":
            vals = []
            for x in self.f.alts(t):
                v = self(x, env, depth)
                if v not in vals:
                    vals.append(v)
            return vals[0] if len(vals) == 1 else t
        a = [self(x, env, depth) if isinstance(x, Term) else x for x in t.a]
        if o == "decode":
            return decode(*a)
        r = rebuild(o, a) if any(x is not y for x, y in zip(a, t.a)) else t
        if r.op == "pay" and r.a[0].op == "call" and r.a[0].a[0] == "String::from_utf8":
            return r.a[0].a[-1]
        return r

    def at(self, c, p, depth):
        while c.op in ("enum", "copy", "coll", "copied"):
            c = c.a[0]
        if c.op == "encode" and PW.get(c.a[1]) == 1 and p is FALSE and c.a[1] == "u8":
            return c.a[2]
        if c.op == "agg" and c.a[0] == "Range":
            return p if agg_get(c, "start") is FALSE else T("index", c, p)
        if c.op == "mapat":
            ss = self.map_sites(c.a[0])
            e = tuple(x for x in c.a[1] if x[0] not in ss) + tuple((s, p) for s in ss)
            return self(c.a[0].a[1], e, depth)
        if c.op == "newat":
            g = self.growth(c.a[0])
            if g is None:
                return T("index", c, p)
            n, inner, val = g
            if len(inner) == 1:
                e = tuple(x for x in c.a[1] if x[0] != inner[0]) + ((inner[0], p),)
                return self(val, e, depth)
            if c.a[0].a[0] == "HashMap":
                return self(val, c.a[1], depth)
            return T("index", c, p)
        return T("index", c, p)

    def map_sites(self, t):
        """sites at which the element a map is made of is taken, None when elements are left out or moved on the way"""
        ss = set()
        while True:
            if t.op == "map":
                ss.add(t.a[2])
            elif t.op == "coll":
                if any(mname(n) not in NEUTRAL for n in events(self.f, t)):
                    return None
                ss.add(t.a[1])
            elif t.op not in ("copy", "copied", "enum"):
                break
            t = t.a[0]
        return None if t.op in PART_OPS else tuple(sorted(ss))

    def length(self, x, depth):
        if x.op == "mapat":
            return self.length(self(x.a[0].a[0], x.a[1], depth), depth)
        if x.op == "newat":
            g = self.growth(x.a[0])
            if g is not None and len(g[1]) == 1:
                it = dict((s, i) for i, s in loop_nexts(self.f, g[0])).get(g[1][0])
                c = self(it, x.a[1], depth)
                return self.length(c, depth)
        if x.op == "prot" and x.a[0].op == "field" and x.a[0].a[1] == self.w.pf["nb"]:
            n = lists_per_point(self.w)
            if n is not None:
                return n
        return length(x)

    def growth(self, v):
        """(node, [loop sites inside the creation scope], pushed value) of the only growth of a collection"""
        k = ("g", v)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        ev = [n for n in events(self.f, v)]
        grow = []
        for n in ev:
            m = mname(n)
            if m in ("push", "insert", "push_back"):
                if m == "push" and self.is_empty(n.call.args[-1]):
                    continue
                grow.append(n)
            elif m in ("reserve", "shrink_to_fit", "with_capacity") or (m == "resize_with"):
                continue
            elif m in GROW or m in SHRINK or m in SORTS or m in ("reverse", "resize", "swap", "rotate_left"):
                return None
        if len(grow) != 1:
            return None
        g = grow[0]
        cre = node_by_id(self.f, v.a[1])
        around = {s for _, s in loop_nexts(self.f, cre)} if cre is not None else set()
        inner = [s for _, s in loop_nexts(self.f, g) if s not in around]
        a = g.call.args
        val = a[1] if mname(g) != "insert" or len(a) < 3 else agg("tuple", ("0", "1"), (a[1], a[2]))
        if mname(g) == "insert" and v.a[0] == "Vec":
            return None
        r = self.memo[k] = (g, inner, val)
        return r

    def is_empty(self, x):
        x = settle(self.f, x)
        return x.op == "new" and x.a[0] == "Vec" and not any(mname(n) in GROW for n in events(self.f, x))


def lists_per_point(w):
    """number of link lists of every point: the lists its only constructor makes"""
    if not hasattr(w, "_nlists"):
        w._nlists = None
        ns = set()
        for b in constructors(w):
            f = w.flow(b)
            for p, r in f.results():
                if r.op != "agg":
                    return None
                nb = agg_get(r, w.pf["nb"])
                while nb is not None and nb.op in ("lockof", "copy"):
                    nb = nb.a[0]
                if nb is None or nb.op not in ("new", "coll", "from_elem"):
                    return None
                c = contents_count(f, nb)
                if c is None:
                    return None
                ns.add(c)
        if len(ns) == 1:
            w._nlists = ns.pop()
    return w._nlists


def constructors(w):
    out = []
    for b in w.prog.bodies.values():
        if b.impl_self is not None and w.prog.adt_of(b.impl_self) == w.point.path and b.name.startswith("new") \
                and not b.impl_trait and b.kind != "closure":
            out.append(b)
    return out


def contents_count(f, v):
    gr = [n for n in events(f, v) if mname(n) in GROW or mname(n) in ("resize", "resize_with")]
    if any(mname(n) in SHRINK and mname(n) not in ("resize", "resize_with") for n in events(f, v)):
        return None
    if v.op in ("coll", "from_elem"):
        n = length(v)
        return n if n.op == "int" and not gr else None
    if len(gr) == 1 and mname(gr[0]) in ("resize", "resize_with") and not loop_nexts(f, gr[0]):
        n = gr[0].call.args[1]
        return n if n.op == "int" and all(gr[0] is p or f.dominates(gr[0], p) for p in f.order if p.kind == "return") else None
    if len(gr) != 1 or mname(gr[0]) != "push":
        return None
    ls = loop_nexts(f, gr[0])
    if len(ls) != 1:
        return None
    it = ls[0][0]
    n = length(it)
    return n if n.op == "int" else None
