"""Flattened control flow and value analysis over the MIR dump.

`Flow(prog, body)` inlines every local callee (and the closures handed to std adaptors) into one
graph, then runs a forward abstract interpretation to a fixpoint.  Values are hash-consed terms
describing where a value comes from; joins make SSA-like `phi` terms.  Nothing is executed, and no
path is handed to a solver.
"""
import sys
from collections import deque
from .mir import short, strip_generics, ToolError

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ terms
class Term:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self, 6)


_table = {}


def T(op, *a):
    k = (op,) + a
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op, t.a, t.id = op, a, len(_table)
        _table[k] = t
    return t


UNDEF = T("undef")
UNIT = T("agg", "tuple", ())
TRUE = T("int", 1)
FALSE = T("int", 0)
MOVED = T("moved")


def I(n):
    return T("int", n)


def show(t, depth=8):
    if not isinstance(t, Term):
        return str(t)
    if depth == 0:
        return "…"
    d = depth - 1
    a = t.a
    if t.op == "param":
        return "arg%d" % a[0]
    if t.op in ("int", "float"):
        return str(a[0])
    if t.op == "str":
        return repr(a[0])
    if t.op == "agg":
        if a[0] == "tuple":
            return "(" + ", ".join(show(x, d) for x in a[2:]) + ")"
        return "%s{%s}" % (a[0], ", ".join("%s:%s" % (n, show(x, d)) for n, x in zip(a[1], a[2:])))
    if t.op == "field":
        return "%s.%s" % (show(a[0], d), str(a[1]).split("#")[-1])
    if t.op == "index":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if t.op == "phi":
        return "phi@%s:%s" % (a[0], a[1])
    if t.op == "bin":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    return "%s(%s)" % (t.op, ", ".join(show(x, d) for x in a))


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        st.extend(y for y in x.a if isinstance(y, Term))
    return seen


def agg(tag, names, vals):
    return T("agg", tag, tuple(names), *vals)


def agg_get(t, name):
    """component of an aggregate or None"""
    if t.op == "agg":
        try:
            return t.a[2 + t.a[1].index(name)]
        except ValueError:
            return None
    if t.op == "with":
        if t.a[1] == name:
            return t.a[2]
        return agg_get(t.a[0], name)
    return None


OKV = ("Option::Some", "Result::Ok", "ControlFlow::Continue")
NOKV = ("Option::None", "Result::Err", "ControlFlow::Break")


def some(x):
    return agg("Option::Some", ("0",), (x,))


NONE = agg("Option::None", (), ())


def cat(*parts):
    out = []
    for p in parts:
        ps = p.a if p.op == "cat" else (p,)
        for q in ps:
            if q.op == "str" and q.a[0] == "":
                continue
            if out and q.op == "str" and out[-1].op == "str":
                out[-1] = T("str", out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return T("str", "")
    if len(out) == 1:
        return out[0]
    return T("cat", *out)


# ---- arithmetic
COMM = {"Add", "Mul", "BitAnd", "BitOr", "BitXor"}


def binop(op, a, b):
    if op.endswith("Unchecked"):
        op = op[:-9]
    if op.endswith("WithOverflow"):
        op = op[:-12]
    if a.op == "int" and b.op == "int":
        x, y = a.a[0], b.a[0]
        try:
            if op == "Add":
                return I(x + y)
            if op == "Sub":
                return I(x - y)
            if op == "Mul":
                return I(x * y)
            if op == "Div" and y:
                return I(x // y)
            if op == "Shl":
                return I(x << y)
            if op == "Eq":
                return TRUE if x == y else FALSE
            if op == "Ne":
                return TRUE if x != y else FALSE
            if op == "Lt":
                return TRUE if x < y else FALSE
            if op == "Le":
                return TRUE if x <= y else FALSE
            if op == "Gt":
                return TRUE if x > y else FALSE
            if op == "Ge":
                return TRUE if x >= y else FALSE
        except OverflowError:
            pass
    if op == "Shl" and b.op == "int" and 0 <= b.a[0] < 64:
        op, b = "Mul", I(1 << b.a[0])
    if op == "Add" and a is b:
        op, b = "Mul", I(2)
    if op in ("Add", "Sub") and b is FALSE:
        return a
    if op == "Add" and a is FALSE:
        return b
    if op == "Mul" and b is TRUE:
        return a
    if op == "Mul" and a is TRUE:
        return b
    # (x + c1) +/- c2
    if op in ("Add", "Sub") and b.op == "int" and a.op == "bin" and a.a[0] in ("Add", "Sub"):
        for i in (1, 2):
            c = a.a[i]
            if c.op == "int" and (i == 2 or a.a[0] == "Add"):
                x = a.a[3 - i]
                k = (c.a[0] if a.a[0] == "Add" else -c.a[0]) + (b.a[0] if op == "Add" else -b.a[0])
                if k == 0:
                    return x
                return binop("Add", x, I(k)) if k > 0 else binop("Sub", x, I(-k))
    if op == "Eq":
        return eq(a, b)
    if op == "Ne":
        return neg(eq(a, b))
    if op == "Lt":
        return lt(a, b)
    if op == "Gt":
        return lt(b, a)
    if op == "Le":
        return neg(lt(b, a))
    if op == "Ge":
        return neg(lt(a, b))
    if op == "Cmp":
        return T("cmp", a, b)
    if op in ("BitAnd", "BitOr"):
        for x, y in ((a, b), (b, a)):
            if x is TRUE:
                return y if op == "BitAnd" else TRUE
            if x is FALSE:
                return FALSE if op == "BitAnd" else y
    if op in COMM and a.id > b.id:
        a, b = b, a
    return T("bin", op, a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "int" and b.op == "int":
        return FALSE
    # bool == const
    for x, y in ((a, b), (b, a)):
        if y in (TRUE, FALSE) and is_bool(x):
            return x if y is TRUE else neg(x)
    if a.op == "agg" and b.op == "agg" and a.a[0] != b.a[0] and "::" in a.a[0] and a.a[0].split("::")[0] == b.a[0].split("::")[0]:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if y.op == "agg" and "::" in y.a[0] and not y.a[1]:
            return isv(x, y.a[0].split("::")[-1], y.a[0])
    if a.id > b.id:
        a, b = b, a
    return T("eq", a, b)


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] < b.a[0] else FALSE
    # -x < -y  <=> y < x
    if a.op == "neg" and b.op == "neg":
        return lt(b.a[0], a.a[0])
    if a.op == "neg" and b.op == "float":
        return lt(fneg(b), a.a[0])
    if b.op == "neg" and a.op == "float":
        return lt(b.a[0], fneg(a))
    # 0 < len  is  not (len == 0);  len < 1 is len == 0
    if a is FALSE and b.op == "len":
        return neg(eq(b, FALSE))
    if b is TRUE and a.op == "len":
        return eq(a, FALSE)
    if b is FALSE and a.op == "len":
        return FALSE
    return T("lt", a, b)


def fneg(x):
    if x.op == "neg":
        return x.a[0]
    if x.op == "float":
        f = x.a[0]
        return T("float", f[1:] if f.startswith("-") else "-" + f)
    if x.op == "int":
        return I(-x.a[0])
    return T("neg", x)


def neg(x):
    if x.op == "not":
        return x.a[0]
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    return T("not", x)


def is_bool(x):
    return x.op in ("eq", "lt", "not", "isok", "is", "contains", "any", "all", "accept", "boolphi")


def isok(v):
    if v.op == "agg":
        if v.a[0] in OKV:
            return TRUE
        if v.a[0] in NOKV:
            return FALSE
    if v.op == "with":
        return isok(v.a[0])
    if v.op in ("cmp", "guard"):
        return TRUE
    if v.op in ("first", "last", "peek", "pop", "minby"):
        # emptiness of the collection
        if v.op in ("first", "last"):
            return neg(eq(length(v.a[0]), FALSE))
    if v.op == "get":
        return lt(v.a[1], length(v.a[0]))
    return T("isok", v)


def isv(v, variant, tag=None):
    if variant in ("Some", "Ok", "Continue"):
        return isok(v)
    if variant in ("None", "Err", "Break"):
        return neg(isok(v))
    if v.op == "agg" and "::" in v.a[0]:
        return TRUE if v.a[0].split("::")[-1] == variant else FALSE
    if v.op == "cmp" and variant == "Less":
        return lt(v.a[0], v.a[1])
    if v.op == "cmp" and variant == "Greater":
        return lt(v.a[1], v.a[0])
    if v.op == "cmp" and variant == "Equal":
        return eq(v.a[0], v.a[1])
    return T("is", v, variant)


def pay(v):
    if v.op in ("agg", "with"):
        c = agg_get(v, "0")
        if c is not None:
            return c
    if v.op == "next":
        return elem(v.a[0], v.a[1])
    if v.op == "optmap":
        return v.a[1]
    if v.op in ("cmp", "guard"):
        return v
    if v.op == "get":
        return T("index", v.a[0], v.a[1])
    if v.op == "first":
        return T("index", v.a[0], FALSE)
    if v.op in ("find", "minby"):
        return elem(v.a[0], v.a[1])
    if v.op == "chk":
        return binop(v.a[0], v.a[1], v.a[2])
    return T("pay", v)


def length(v):
    if v.op in ("copy", "coll", "enum", "rev", "sorted"):
        return length(v.a[0])
    if v.op == "map":
        return length(v.a[0])
    if v.op == "agg" and v.a[0] == "array":
        return I(len(v.a[1]))
    if v.op == "agg" and v.a[0] == "Range" and v.a[2] is FALSE:
        return v.a[3]
    if v.op == "str":
        return I(len(v.a[0]))
    if v.op == "from_elem":
        return v.a[1]
    if v.op == "slice":
        return binop("Sub", v.a[2], v.a[1])
    if v.op == "readbytes":
        return v.a[2]
    return T("len", v)


def larger(m, x, y):
    if x.id > y.id:
        x, y = y, x
    return T(m, x, y)


def strip_rev(t):
    """the reorderings and displacements applied to a sequence"""
    out = []
    while t.op in ("rev", "skip", "stepby", "copy", "copied", "take", "enum", "map"):
        if t.op in ("rev", "skip", "stepby"):
            out.append((t.op,) + t.a[1:])
        t = t.a[0]
    return out


def elem(it, site):
    """an element produced by iterating `it` (at the iteration point `site`)"""
    o = it.op
    if o in ("rev", "take", "skip", "copy", "copied", "sorted", "takewhile", "stepby", "chainx", "dedup"):
        return elem(it.a[0], site)
    if o == "filter":
        return elem(it.a[0], it.a[1])
    if o == "map":
        return it.a[1]
    if o == "filtermap":
        return pay(it.a[1])
    if o == "coll":
        return elem(it.a[0], it.a[1])
    if o == "enum":
        return agg("tuple", ("0", "1"), (T("pos", it.a[0], site), elem(it.a[0], site)))
    if o == "zip":
        a, b = it.a
        if strip_rev(a) != strip_rev(b):
            # the two sides do not go in the same order from the same place: their elements are not paired by position
            return agg("tuple", ("0", "1"), tuple(T("elem", x, site) if strip_rev(x) else elem(x, site) for x in (a, b)))
        return agg("tuple", ("0", "1"), (elem(a, site), elem(b, site)))
    if o == "flatmap":
        return elem(it.a[1], site)
    if o == "flatten":
        return elem(elem(it.a[0], site), site)
    if o == "slice":
        return T("elem", it, site)
    if o == "agg" and it.a[0] == "array" and len(it.a[1]) == 1:
        return it.a[2]
    if o in ("keys", "values"):
        e = elem(it.a[0], site)
        return agg_get(e, "0" if o == "keys" else "1") if e.op == "agg" else T("field", e, "0" if o == "keys" else "1")
    return T("elem", it, site)


# ------------------------------------------------------------------ graph
class Ctx:
    __slots__ = ("id", "body", "parent", "call", "clos", "depth", "site", "fn")

    def __init__(self, i, body, parent, call, fn=None):
        self.id, self.body, self.parent, self.call, self.fn = i, body, parent, call, fn
        self.clos = {}
        self.depth = parent.depth + 1 if parent else 0

    def chain(self):
        c = self
        while c is not None:
            yield c.body
            c = c.parent


class Node:
    __slots__ = ("id", "kind", "ctx", "stmts", "x", "succ", "pred", "span", "out", "facts", "call", "stores", "inn",
                 "visits", "aggs", "logged")

    def __init__(self, i, kind, ctx, span=None):
        self.id, self.kind, self.ctx, self.span = i, kind, ctx, span
        self.stmts = ()
        self.x = None
        self.succ = []
        self.pred = []
        self.out = None
        self.inn = None
        self.facts = ()
        self.call = None
        self.stores = []
        self.aggs = []
        self.visits = 0

    def __repr__(self):
        return "<n%d %s %s>" % (self.id, self.kind, self.ctx.body.name)

    @property
    def where(self):
        sp = self.span
        return "%s:%s (%s)" % (sp[0] if sp else self.ctx.body.file, sp[1] if sp else "?", self.ctx.body.spath)


class Call:
    """an opaque (not inlined) call: name, argument values (references to locals resolved), result"""
    __slots__ = ("name", "fn", "raw", "args", "dest", "node", "argtys", "desttys")

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(show(a, 4) for a in self.args))


COLL_TYPES = ("std::vec::Vec", "hashbrown::HashMap", "std::collections::HashMap", "std::collections::BinaryHeap",
              "hashbrown::HashSet", "std::collections::HashSet", "std::collections::VecDeque",
              "std::collections::BTreeMap", "std::collections::BTreeSet", "indexmap::IndexMap", "indexmap::IndexSet",
              "indexmap::map::IndexMap")
PRIM_SIZE = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8,
             "f64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16}
UNSIGNED = {"u8", "u16", "u32", "u64", "usize", "u128", "bool", "char"}

# HOFs: name -> list per closure argument of how its parameters are bound
ITER_ELEM1 = {"map", "for_each", "filter", "any", "all", "position", "find", "take_while", "skip_while", "flat_map",
              "filter_map", "find_map", "inspect", "min_by_key", "max_by_key", "partition", "try_for_each", "map_while",
              "rposition", "find_any", "find_first", "position_any", "position_first", "flat_map_iter", "is_partitioned",
              "is_sorted_by_key", "try_for_each_init", "retain", "retain_mut", "sort_by_key", "sort_unstable_by_key",
              "dedup_by_key", "sort_by_cached_key", "binary_search_by_key", "binary_search_by", "partition_point",
              "par_sort_by_key", "count_by", "extract_if"}
ITER_ELEM2 = {"min_by", "max_by", "sort_by", "sort_unstable_by", "reduce", "is_sorted_by", "dedup_by", "par_sort_by",
              "par_sort_unstable_by", "reduce_with"}
OPT_PAY = {"map", "and_then", "map_or", "is_some_and", "is_ok_and", "filter", "inspect", "is_none_or", "map_or_else",
           "map_or_default"}


# combinators taken as the two branches (value present, value absent) they stand for
OPT_BRANCH = {}
for _t in ("Option", "Result"):
    OPT_BRANCH[_t + "::map_or"] = (("fn", 2), ("op", 1))
    OPT_BRANCH[_t + "::map_or_else"] = (("fn", 2), ("fn", 1))
    OPT_BRANCH[_t + "::unwrap_or"] = (("pay",), ("op", 1))
    OPT_BRANCH[_t + "::unwrap_or_else"] = (("pay",), ("fn", 1))
OPT_BRANCH["Option::is_some_and"] = OPT_BRANCH["Result::is_ok_and"] = (("fn", 1), ("const", FALSE))
OPT_BRANCH["Result::is_err_and"] = (("const", FALSE), ("fn", 1))
OPT_BRANCH["Option::is_none_or"] = (("fn", 1), ("const", TRUE))
OPT_BRANCH["Result::and_then"] = (("fn", 1), ("err",))
OPT_BRANCH["Result::map"] = (("fn", 1, "Result::Ok"), ("err",))
OPT_BRANCH["Result::map_err"] = (("ok",), ("fn", 1, "Result::Err"))
OPT_BRANCH["Result::or_else"] = (("ok",), ("fn", 1))
OPT_BRANCH["Option::and_then"] = (("fn", 1), ("const", agg("Option::None", (), ())))


class Policy:
    """what to inline; a rule may stop at some functions"""

    def __init__(self, stop=(), prune_logs=True, max_nodes=60000, inline=None, given=None, assume=None):
        self.given = given or {}        # read site -> the bytes it reads
        self.assume = assume or {}      # atom -> truth: the paths it excludes are not explored
        self.stop = set(stop)
        self.prune_logs = prune_logs
        self.max_nodes = max_nodes
        self.inline = inline

    def wants(self, ctx, body):
        if body.id in self.stop or body.spath in self.stop:
            return False
        if body.derived and body.name in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge"):
            return False            # a derived comparison is the structural one
        if self.inline is not None:
            return self.inline(ctx, body)
        return True


def build_flow(prog, body, policy):
    """the flow of a function, its `while i < n { ..; i += 1 }` loops read as `for i in start..n`"""
    counters = {}
    for _ in range(4):
        f = Flow(prog, body, policy, counters=counters)
        more = {k: v for k, v in f.find_counters().items() if k not in counters}
        if not more:
            break
        counters = {**counters, **more}
    return f


def is_log(span):
    return bool(span) and any(m.startswith("log::") for m in span[2])


class Flow:
    def __init__(self, prog, body, policy=None, run=True, counters=None):
        self.counters = counters or {}      # phi -> the sequence start..end it goes through
        self.prog = prog
        self.root = body
        self.policy = policy or Policy()
        self.nodes = []
        self.ctxs = []
        self.phi_in = {}
        self.inlined = set()
        self.hof_loop = {}        # hofbind node id -> (sequence, site) iterated by the closure
        self.returns = []  # exit nodes (normal)
        self.diverges = []  # (node) that end in panic/exit
        self.filter_ret = {}
        self.hof_site = {}       # id of a call taking a closure for effect (sort_by, retain) -> site of the elements given to the closure
        self.guard_info = {}
        c = self.new_ctx(body, None, None)
        self.rootctx = c
        self.entry = self.node("entry", c)
        self.exit = self.node("return", c)
        e = self.build(c, self.exit)
        self.link(self.entry, e)
        self.prune()
        if run:
            self.run()

    # -------------------------------------------------- construction
    def type_in(self, ctx, t, depth=0):
        """type argument t written in ctx, as (type index, ctx) with the parameters of generic functions resolved"""
        while not isinstance(t, str) and self.prog.types[t]["k"] == "param" and ctx is not None:
            nm = self.prog.types[t]["name"]
            # a closure shares the parameters of the function it is written in
            while ctx.body.kind == "Closure" and ctx.parent is not None:
                ctx = ctx.parent
            if ctx.parent is None or ctx.fn is None:
                break
            args = ctx.fn.get("rargs") or ctx.fn.get("args") or []
            if len(args) != len(ctx.body.generics) or nm not in ctx.body.generics:
                break
            t = args[ctx.body.generics.index(nm)]
            ctx = ctx.parent
        return t, ctx

    def const_param(self, ctx, c, ty):
        """value of the constant c, the parameters of generic functions resolved"""
        while ctx is not None:
            try:
                return I(int(c.split("_")[0]))
            except ValueError:
                pass
            if c in ("true", "false"):
                return I(int(c == "true"))
            while ctx.body.kind == "Closure" and ctx.parent is not None:
                ctx = ctx.parent
            if ctx.parent is None or ctx.fn is None:
                break
            args = ctx.fn.get("rargs") or ctx.fn.get("args") or []
            if len(args) != len(ctx.body.generics) or c not in ctx.body.generics:
                break
            c = str(args[ctx.body.generics.index(c)])
            ctx = ctx.parent
        return T("const", c, ty)

    def type_str(self, ctx, t):
        t, ctx = self.type_in(ctx, t)
        if isinstance(t, str):
            return t
        ty = self.prog.types[t]
        if ty["k"] == "adt" and ty["args"] and ctx is not None and ctx.parent is not None:
            r = [self.type_str(ctx, a) for a in ty["args"]]
            if r != [a if isinstance(a, str) else self.prog.ts(a) for a in ty["args"]]:
                return "%s<%s>" % (ty["path"], ", ".join(r))
        return self.prog.ts(t)

    def new_ctx(self, body, parent, call, fn=None):
        c = Ctx(len(self.ctxs), body, parent, call, fn)
        self.ctxs.append(c)
        self.inlined.add(body.id)
        return c

    def node(self, kind, ctx, span=None):
        n = Node(len(self.nodes), kind, ctx, span)
        self.nodes.append(n)
        if len(self.nodes) > self.policy.max_nodes:
            raise ToolError("flattened graph of %s is too large" % self.root.path)
        return n

    @staticmethod
    def link(a, b):
        a.succ.append(b)
        b.pred.append(a)

    def op_type(self, ctx, o):
        if "p" in o:
            return self.place_type(ctx, o["p"])
        return o.get("ty")

    def place_type(self, ctx, p):
        t = ctx.body.locals[p[0]]
        pr = self.prog
        for e in p[1]:
            if t is None:
                return None
            ty = pr.types[t]
            if e[0] == "D":
                if ty["k"] in ("ref", "ptr"):
                    t = ty["to"]
                elif ty["k"] == "adt" and ty["args"] and not isinstance(ty["args"][0], str):
                    t = ty["args"][0]
                else:
                    return None
            elif e[0] == "F":
                t = e[4]
            elif e[0] == "V":
                pass
            elif e[0] in ("I", "C"):
                t = ty.get("to") if ty["k"] in ("slice", "array") else None
                if t is None and ty.get("args"):
                    t = ty["args"][0] if not isinstance(ty["args"][0], str) else None
            else:
                return t
        return t

    def find_closure(self, ctx, o, depth=0):
        """statically resolves an operand to a local closure body or a local fn"""
        pr = self.prog
        if depth > 12:
            return None
        if "fn" in o:
            rid = o["fn"].get("resid")
            if rid and rid in pr.bodies:
                return ("fn", pr.bodies[rid], o["fn"])
            return ("ext", None, o["fn"])
        if "p" not in o:
            t = o.get("ty")
            if t is not None:
                b = self._clos_ty(t)
                if b:
                    return ("clos", b, None)
            return None
        t = self.op_type(ctx, o)
        if t is not None:
            b = self._clos_ty(t)
            if b:
                return ("clos", b, None)
            tt = pr.types[pr.peel_ref(t)]
            if tt["k"] == "fndef":
                c = pr.by_spath.get(strip_generics(tt["path"]))
                if c and len(c) == 1:
                    return ("fn", c[0], None)
        loc, proj = o["p"]
        if loc in ctx.clos:
            return ctx.clos[loc]
        # captured generic closure: field of own environment
        defs = []
        for bl in ctx.body.blocks:
            if bl["cleanup"]:
                continue
            for s in bl["s"]:
                if s[0] == "=" and s[1][0] == loc and not s[1][1]:
                    defs.append(s[2])
        if len(defs) == 1:
            r = defs[0]
            if r[0] == "use":
                return self.find_closure(ctx, r[1], depth + 1)
            if r[0] == "ref":
                return self.find_closure(ctx, {"p": r[2]}, depth + 1)
            if r[0] == "cast":
                return self.find_closure(ctx, r[2], depth + 1)
        return None

    def _clos_ty(self, t):
        pr = self.prog
        i = t
        for _ in range(6):
            ty = pr.types[i]
            if ty["k"] in ("ref", "ptr"):
                i = ty["to"]
            elif ty["k"] == "adt" and ty["path"] in ("std::boxed::Box",) and ty["args"]:
                i = ty["args"][0]
            else:
                break
        if pr.types[i]["k"] == "closure":
            return pr.closure_body(i)
        return None

    def callee(self, ctx, func):
        """(local body or None, short name, fn dict)"""
        fn = func.get("fn")
        if fn is None:
            return None, "<indirect>", {}
        rid = fn.get("resid")
        body = self.prog.bodies.get(rid) if rid else None
        if body is None and fn.get("trait") and not fn.get("res") and fn.get("name"):
            body = None
        name = short(fn.get("res") or fn["path"])
        if fn.get("trait"):
            tr = fn["trait"].split("::")[-1]
            name = tr + "::" + fn["name"]
        return body, name, fn

    def build(self, ctx, exit_node):
        """builds the graph of ctx.body; returns its entry node; returns flow to exit_node"""
        body = ctx.body
        blocks = body.blocks
        entry = {}
        for i, b in enumerate(blocks):
            if not b["cleanup"]:
                entry[i] = self.node("blk", ctx)
        for i, b in enumerate(blocks):
            if b["cleanup"]:
                continue
            n = entry[i]
            n.stmts = b["s"]
            t = b["t"]
            n.span = t[-1] if isinstance(t[-1], list) else None
            k = t[0]
            if k == "goto":
                self.link(n, entry[t[1]])
            elif k == "switch":
                targets = t[2]
                other = t[3]
                if self.policy.prune_logs and is_log(t[-1]) and len(targets) == 1 and targets[0][0] == "0":
                    self.link(n, entry[targets[0][1]])
                    continue
                ty = t[4] if len(t) > 5 else None
                for v, bb in targets:
                    e = self.node("edge", ctx, t[-1])
                    e.x = (t[1], int(v), None)
                    self.link(n, e)
                    self.link(e, entry[bb])
                if other is not None and not self._unreach(blocks[other]):
                    e = self.node("edge", ctx, t[-1])
                    e.x = (t[1], None, [int(v) for v, _ in targets])
                    self.link(n, e)
                    self.link(e, entry[other])
            elif k == "ret":
                self.link(n, exit_node)
            elif k == "drop":
                d = self.node("drop", ctx, t[-1])
                d.x = t[1]
                self.link(n, d)
                self.link(d, entry[t[2]])
            elif k == "assert":
                e = self.node("edge", ctx, t[-1])
                e.x = (t[1], 1 if t[2] else 0, None)
                self.link(n, e)
                self.link(e, entry[t[4]])
                dv = self.node("diverge", ctx, t[-1])
                dv.x = ("assert:" + str(t[3]), t[1], t[2])
                self.link(n, dv)
                self.diverges.append(dv)
            elif k == "call":
                self.build_call(ctx, n, t, entry)
            elif k in ("unreach", "resume", "abort"):
                pass
            else:
                for x in t[1:]:
                    if isinstance(x, int) and x in entry:
                        self.link(n, entry[x])
        return entry[0]

    @staticmethod
    def _unreach(b):
        return b["t"][0] == "unreach" and not b["s"]

    def build_call(self, ctx, n, t, entry):
        func, args, dest, target, span = t[1], t[2], t[3], t[4], t[-1]
        body, name, fn = self.callee(ctx, func)
        tgt = entry.get(target) if target is not None else None
        # direct call of a closure / fn item
        if name in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once") or name == "<indirect>":
            fo = args[0] if name != "<indirect>" else func
            c = self.find_closure(ctx, fo)
            if c and c[0] in ("clos", "fn") and c[1].id not in [b.id for b in ctx.chain()] and self.policy.wants(ctx, c[1]):
                tup = None
                if name != "<indirect>":
                    tup = args[1]
                self.splice(ctx, n, c, fo, ("tuple", tup) if tup is not None else ("ops", args), dest, tgt, span)
                return
            if c and c[0] == "ext":
                pass
        if body is not None and body.id not in [b.id for b in ctx.chain()] and self.policy.wants(ctx, body):
            self.splice(ctx, n, ("fn", body, fn), None, ("ops", args), dest, tgt, span)
            return
        if body is None and name in OPT_BRANCH and tgt is not None and not is_log(span) and \
                self.build_opt(ctx, n, name, fn, args, dest, tgt, span):
            return
        # std higher-order function with closures
        clos = []
        if body is None:
            for ai, o in enumerate(args):
                c = None
                ty = self.op_type(ctx, o)
                if ty is not None:
                    tk = self.prog.types[self.prog.peel_ref(ty)]["k"]
                    if tk in ("closure", "fndef", "param"):
                        c = self.find_closure(ctx, o)
                if c and c[0] in ("clos", "fn") and c[1].id not in [b.id for b in ctx.chain()] and \
                        self.policy.wants(ctx, c[1]):
                    clos.append((ai, c))
                elif c and c[0] == "ext":
                    clos.append((ai, c))
        if clos and not is_log(span):
            h = self.node("hof", ctx, span)
            self.link(n, h)
            done = self.node("call", ctx, span)
            done.x = (name, fn, args, dest, h)
            h.x = (name, fn, args, done, [])
            self.link(h, done)
            for ai, c in clos:
                if c[0] == "ext":
                    h.x[4].append((ai, c, None))
                    continue
                cc = self.new_ctx(c[1], ctx, h)
                b = self.node("hofbind", cc, span)
                r = self.node("hofret", cc, span)
                b.x = (name, fn, args, ai, c, h)
                r.x = (h, ai)
                h.x[4].append((ai, c, cc))
                self.link(h, b)
                e = self.build(cc, r)
                self.link(b, e)
                if name.split("::")[-1] == "try_for_each" and dest is not None and tgt is not None:
                    # a failing turn ends the loop with its result
                    ok, ko = self.node("tryedge", ctx, span), self.node("tryedge", ctx, span)
                    ok.x, ko.x = (h, ai, True, None), (h, ai, False, dest)
                    self.link(r, ok)
                    self.link(ok, h)
                    self.link(r, ko)
                    self.link(ko, tgt)
                else:
                    self.link(r, h)
            if tgt is not None:
                self.link(done, tgt)
            return
        cn = self.node("call", ctx, span)
        cn.x = (name, fn, args, dest, None)
        self.link(n, cn)
        if tgt is not None:
            self.link(cn, tgt)
        else:
            dv = self.node("diverge", ctx, span)
            dv.x = (name, None, None)
            self.link(cn, dv)
            self.diverges.append(dv)

    def build_opt(self, ctx, n, name, fn, args, dest, tgt, span):
        """map_or, unwrap_or ... as the match they stand for"""
        arms = []
        for spec in OPT_BRANCH[name]:
            c = None
            if spec[0] == "fn":
                c = self.find_closure(ctx, args[spec[1]])
                if not c or c[0] not in ("clos", "fn") or c[1].id in [b.id for b in ctx.chain()] or not self.policy.wants(ctx, c[1]):
                    return False
            arms.append((spec, c))
        for pol, (spec, c) in zip((True, False), arms):
            e = self.node("optedge", ctx, span)
            e.x = (args[0], pol)
            self.link(n, e)
            a = self.node("optasg", ctx, span)
            a.x = (dest, spec, args, pol)
            if c is None:
                self.link(e, a)
            else:
                cc = self.new_ctx(c[1], ctx, n)
                b = self.node("optbind", cc, span)
                r = self.node("optret", cc, span)
                b.x = (args, spec[1], c, pol, n)
                r.x = (ctx, n.id)
                self.link(e, b)
                self.link(b, self.build(cc, r))
                self.link(r, a)
                a.x = (dest, ("res", n.id) + spec[2:], args, pol)
            self.link(a, tgt)
        return True

    def splice(self, ctx, n, c, fo, argspec, dest, tgt, span):
        body = c[1]
        cc = self.new_ctx(body, ctx, n, c[2] if c[0] == "fn" and len(c) > 2 else None)
        b = self.node("bind", cc, span)
        b.x = (ctx, c, fo, argspec)
        self.link(n, b)
        # generic closures handed over
        if argspec[0] == "ops":
            for i, o in enumerate(argspec[1]):
                ty = self.op_type(ctx, o)
                if ty is not None and self.prog.types[self.prog.peel_ref(ty)]["k"] in ("closure", "fndef", "param"):
                    r = self.find_closure(ctx, o)
                    if r:
                        cc.clos[i + 1] = r
        r = self.node("ret", cc, span)
        r.x = (ctx, dest)
        e = self.build(cc, r)
        self.link(b, e)
        if tgt is not None:
            self.link(r, tgt)
        b.facts = ()

    def prune(self):
        """drops unreachable nodes and computes RPO"""
        seen = set()
        order = []
        st = [(self.entry, iter(self.entry.succ))]
        seen.add(self.entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(s.succ)))
                    break
            else:
                order.append(n)
                st.pop()
        order.reverse()
        self.order = order
        self.rpo = {n: i for i, n in enumerate(order)}
        for n in order:
            n.pred = [p for p in n.pred if p in seen]
        self.diverges = [d for d in self.diverges if d in seen]

    # -------------------------------------------------- abstract interpretation
    def run(self):
        import heapq
        self.entry.inn = {}
        for i in range(1, self.root.argc + 1):
            self.entry.inn[(self.rootctx.id, i)] = T("param", i)
        wl = [0]
        inq = {0}
        count = 0
        limit = 40 * len(self.order) + 20000
        while wl:
            i = heapq.heappop(wl)
            inq.discard(i)
            n = self.order[i]
            count += 1
            if count > limit:
                raise ToolError("no fixpoint for %s" % self.root.path)
            if n is self.entry:
                st = dict(n.inn)
            else:
                st = self.merge(n)
            n.inn = st
            n.visits += 1
            out = self.transfer(n, dict(st))
            if out is None:
                continue
            if n.out is None or not self.same(out, n.out):
                n.out = out
                for s in n.succ:
                    j = self.rpo[s]
                    if j not in inq:
                        inq.add(j)
                        heapq.heappush(wl, j)
        self.steps = count
        # nodes no feasible path reaches are dropped
        live = [n for n in self.order if n.inn is not None]
        ls = {n for n in live if n.out is not None}
        for n in live:
            n.pred = [p for p in n.pred if p in ls]
            n.succ = [x for x in n.succ if x.inn is not None and x.out is not None] if n in ls else []
        self.order = [n for n in live if n in ls]
        self.rpo = {n: i for i, n in enumerate(self.order)}
        self.diverges = [d for d in self.diverges if d in ls]

    @staticmethod
    def same(a, b):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            if b.get(k) is not v:
                return False
        return True

    def merge(self, n):
        ps = [p for p in n.pred if p.out is not None]
        if len(ps) == 1:
            return ps[0].out
        keys = set()
        for p in ps:
            keys.update(p.out.keys())
        st = {}
        if not ps:
            return st
        p0 = ps[0].out
        for k in keys:
            v0 = p0.get(k)
            if v0 is not None and all(p.out.get(k) is v0 for p in ps):
                st[k] = v0
                continue
            vals = []
            for p in ps:
                v = p.out.get(k)
                if v is None:
                    if isinstance(k, Term):
                        v = k
                    else:
                        continue
                vals.append((p, v))
            st[k] = self.join(n, k, (), vals)
        return st

    def join(self, n, k, path, vals):
        ph = T("phi", n.id, (k, path) if not isinstance(k, Term) else (("h", k.id), path))
        distinct = []
        for p, v in vals:
            if v is not ph and v is not UNDEF and v not in distinct:
                distinct.append(v)
        if not distinct:
            return UNDEF
        if ph in self.counters and len(distinct) > 1:
            return T("elem", self.counters[ph], n.id)
        if len(distinct) == 1 and n.visits < 30:
            return distinct[0]
        f = distinct[0]
        if f.op == "agg" and all(d.op == "agg" and d.a[0] == f.a[0] and d.a[1] == f.a[1] for d in distinct) and len(path) < 5 \
                and not any(v is ph for p, v in vals):
            vs = [(p, v) for p, v in vals if v.op == "agg"]
            return T("agg", f.a[0], f.a[1], *[
                self.join(n, k, path + (f.a[1][i] if i < len(f.a[1]) else i,), [(p, v.a[2 + i]) for p, v in vs])
                for i in range(len(f.a) - 2)])
        if len(distinct) == 2 and not path and n.visits < 30:
            r = self.extremum(n, k, vals)
            if r is not None:
                return r
        self.phi_in[ph] = [(p, v) for p, v in vals if v is not ph]
        return ph

    def extremum(self, n, k, vals):
        """if a < b { b } else { a }: the value merged at n is the larger (or the smaller) of two integers"""
        if isinstance(k, Term) or k[0] != n.ctx.id or len(vals) != 2 or not isinstance(k[1], int) or k[1] >= len(n.ctx.body.locals):
            return None
        ts = self.prog.ts(n.ctx.body.locals[k[1]])
        if ts not in PRIM_SIZE or ts[0] not in "ui":
            return None
        ends = []
        for p, v in vals:
            while p.kind != "edge" and len(p.pred) == 1:
                p = p.pred[0]
            if p.kind != "edge" or len(p.pred) != 1:
                return None
            ends.append(p)
        (e1, e2), (v1, v2) = ends, (vals[0][1], vals[1][1])
        if e1 is e2 or e1.pred[0] is not e2.pred[0]:
            return None
        for pol, t in e1.facts:
            if (not pol, t) not in e2.facts:
                continue
            yes, no = (v1, v2) if pol else (v2, v1)
            if t.op == "lt":
                a, b = t.a
                if (yes, no) == (b, a):
                    return larger("max", a, b)
                if (yes, no) == (a, b):
                    return larger("min", a, b)
                # x < c with whole numbers is x <= c-1
                if b.op == "int" and yes.op == "int" and no is a and yes.a[0] in (b.a[0], b.a[0] - 1):
                    return larger("max", a, yes)
                if b.op == "int" and no.op == "int" and yes is a and no.a[0] in (b.a[0], b.a[0] - 1):
                    return larger("min", a, no)
                if a.op == "int" and yes.op == "int" and no is b and yes.a[0] in (a.a[0], a.a[0] + 1):
                    return larger("min", b, yes)
                if a.op == "int" and no.op == "int" and yes is b and no.a[0] in (a.a[0], a.a[0] + 1):
                    return larger("max", b, no)
            if t.op == "eq" and ts[0] == "u":
                for x, c in (t.a, t.a[::-1]):
                    if c is I(0) and no is x and yes is I(1):
                        return larger("max", x, yes)
        return None

    # ---- places
    def key(self, ctx, l):
        return (ctx.id, l)

    def fname(self, owner, variant, idx):
        if owner in (None, "tuple", "closure"):
            return str(idx)
        a = self.prog.adts.get(owner)
        if a is None:
            return str(idx)
        if owner in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow"):
            return str(idx)
        try:
            return a.variants[variant or 0][1][idx][0]
        except IndexError:
            return str(idx)

    def field(self, st, v, owner, variant, idx):
        if owner in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow") and variant is not None:
            nm = self.prog.adts[owner].variants[variant][0] if owner in self.prog.adts else \
                {"std::option::Option": ["None", "Some"], "std::result::Result": ["Ok", "Err"],
                 "std::ops::ControlFlow": ["Continue", "Break"]}[owner][variant]
            if nm in ("Some", "Ok", "Continue"):
                r = pay(v)
                return st.get(r, r)
            if nm == "Err":
                if v.op == "agg" and v.a[0] == "Result::Err":
                    return v.a[2]
                return T("errpay", v)
            if nm == "Break":
                return v
            return UNDEF
        k = self.fname(owner, variant, idx)
        return self.fieldk(st, v, k, owner, variant)

    def fieldk(self, st, v, k, owner=None, variant=None):
        c = agg_get(v, k)
        if c is not None:
            return c
        if v.op == "with":
            while v.op == "with":
                v = v.a[0]
        if v.op == "optmap" or v is UNDEF:
            pass
        if owner not in (None, "tuple", "closure"):
            nm = owner.split("::")[-1]
            a = self.prog.adts.get(owner)
            if a is not None and len(a.variants) > 1 and variant is not None:
                nm += "::" + a.variants[variant][0]
            if nm in ("Box", "Unique", "NonNull", "Arc"):
                return v
        if v.op == "pos" and False:
            return v
        t = T("field", v, k)
        return st.get(t, t)

    def read_lv(self, st, lv):
        if lv[0] == "L":
            v = st.get((lv[1], lv[2]), UNDEF)
            for e in lv[3]:
                v = self.read_step(st, v, e)
            return v
        return st.get(lv[1], lv[1])

    def read_step(self, st, v, e):
        if e[0] == "f":
            return self.field(st, v, e[1], e[2], e[3])
        if e[0] == "i":
            return self.index(st, v, e[1])
        return v

    def index(self, st, v, i):
        if v.op == "agg" and v.a[0] == "array" and i.op == "int" and 0 <= i.a[0] < len(v.a) - 2:
            return v.a[2 + i.a[0]]
        while v.op == "updidx":
            if v.a[1] is i:
                return v.a[2]
            if v.a[1].op == "int" and i.op == "int":
                v = v.a[0]
            else:
                break
        if v.op == "from_elem":
            return v.a[0]
        if i.op == "elem" and i.a[0].op == "agg" and i.a[0].a[0] == "Range" and i.a[0].a[2] is FALSE and i.a[0].a[3] is length(v) and v.op != "agg":
            return st.get(T("index", v, i)) or elem(v, i.a[1])
        t = T("index", v, i)
        return st.get(t, t)

    def deref(self, st, v):
        if v.op == "ref":
            return self.read_lv(st, ("L", v.a[0], v.a[1], v.a[2]))
        return st.get(v, v)

    def lvalue(self, st, ctx, place):
        lv = ("L", ctx.id, place[0], ())
        variant = None
        for e in place[1]:
            k = e[0]
            if k == "D":
                v = self.read_lv(st, lv)
                if v.op == "ref":
                    lv = ("L", v.a[0], v.a[1], v.a[2])
                else:
                    lv = ("H", v)
            elif k == "V":
                pass
            elif k == "F":
                if lv[0] == "L":
                    lv = ("L", lv[1], lv[2], lv[3] + (("f", e[2], e[3], e[1]),))
                else:
                    v = lv[1]
                    r = self.field({}, v, e[2], e[3], e[1])
                    # the value stored there may be a reference: keep the location
                    lv = ("H", r)
            elif k in ("I", "C"):
                if k == "I":
                    i = st.get((ctx.id, e[1]), UNDEF)
                else:
                    i = I(e[1]) if not e[2] else T("fromend", e[1])
                if lv[0] == "L":
                    lv = ("L", lv[1], lv[2], lv[3] + (("i", i),))
                else:
                    lv = ("H", T("index", lv[1], i))
            elif k == "S":
                v = self.read_lv(st, lv)
                lv = ("H", T("slice", v, I(e[1]), I(e[2])))
        return lv

    def read(self, st, ctx, place):
        l, proj = place
        if not proj:
            return st.get((ctx.id, l), UNDEF)
        return self.read_lv(st, self.lvalue(st, ctx, place))

    def upd(self, st, old, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == "f":
            if e[1] in ("std::option::Option", "std::result::Result") and e[2] is not None:
                k = "0"
            else:
                k = self.fname(e[1], e[2], e[3])
            cur = self.read_step(st, old, e)
            new = self.upd(st, cur, path[1:], val)
            if old.op == "agg" and k in old.a[1]:
                i = old.a[1].index(k)
                vs = list(old.a[2:])
                vs[i] = new
                return T("agg", old.a[0], old.a[1], *vs)
            base = old
            keep = []
            while base.op == "with":
                if base.a[1] != k:
                    keep.append((base.a[1], base.a[2]))
                base = base.a[0]
            keep.append((k, new))
            keep.sort(key=lambda kv: kv[0])
            for kk, vv in keep:
                base = T("with", base, kk, vv)
            return base
        if e[0] == "i":
            if old.op == "agg" and old.a[0] == "array" and e[1].op == "int":
                vs = list(old.a[2:])
                if 0 <= e[1].a[0] < len(vs):
                    vs[e[1].a[0]] = self.upd(st, vs[e[1].a[0]], path[1:], val)
                    return T("agg", old.a[0], old.a[1], *vs)
            return old
        return val

    def write_lv(self, st, lv, val, n=None):
        if lv[0] == "L":
            k = (lv[1], lv[2])
            old = st.get(k, UNDEF)
            if any(e[0] == "i" for e in lv[3]) and n is not None:
                n.stores.append((self.read_lv(st, lv), val))
            st[k] = self.upd(st, old, lv[3], val)
        else:
            t = lv[1]
            dead = [k for k in st if isinstance(k, Term) and k is not t and self.prefix(t, k)]
            for k in dead:
                del st[k]
            st[t] = val
            if n is not None:
                n.stores.append((t, val))

    @staticmethod
    def prefix(t, k):
        d = 0
        while k.op in ("field", "index", "pay") and d < 12:
            k = k.a[0]
            if k is t:
                return True
            d += 1
        return False

    # ---- operands and rvalues
    def operand(self, st, ctx, o, n=None):
        if "p" in o:
            return self.read(st, ctx, o["p"])
        if "rt" in o:
            return FALSE
        if "fn" in o:
            f = o["fn"]
            return T("fnref", f.get("res") or f["path"], f.get("resid") or "")
        if "int" in o:
            return I(int(o["int"]))
        if "float" in o:
            return T("float", o["float"])
        if "str" in o:
            return T("str", o["str"])
        if "bytes" in o:
            return T("bytes", o["bytes"])
        if "promoted" in o:
            return self.promoted(ctx, o["promoted"])
        if "cpar" in o:
            return self.const_param(ctx, o["cpar"], self.prog.types[o["ty"]]["s"])
        ty = self.prog.types[o["ty"]]
        if ty["s"] == "()":
            return UNIT
        if ty["k"] == "closure":
            b = self.prog.closure_body(o["ty"])
            return T("agg", "closure:" + (b.id if b else "?"), ())
        if "path" in o:
            return T("const", o["path"], ty["s"])
        if ty["k"] == "adt":
            return T("const", ty["s"], ty["s"])
        return T("const", "?", ty["s"])

    def promoted(self, ctx, i):
        try:
            pb = ctx.body.promoted[i]
        except IndexError:
            return T("const", "promoted", str(i))
        st = {}

        class PC:
            pass
        pc = PC()
        pc.id = "p"
        pc.body = PC()
        pc.body.locals = pb["locals"]
        pc.body.promoted = ctx.body.promoted
        bi = 0
        for _ in range(50):
            b = pb["blocks"][bi]
            for s in b["s"]:
                if s[0] == "=":
                    try:
                        self.write_lv(st, self.lvalue(st, pc, s[1]), self.rvalue(st, pc, s[2], s[1], None))
                    except Exception:
                        return T("const", "promoted", str(i))
            t = b["t"]
            if t[0] == "goto":
                bi = t[1]
            elif t[0] == "assert":
                bi = t[4]
            elif t[0] == "call" and t[4] is not None:
                body, name, fn = self.callee(ctx, t[1])
                vals = [self.operand(st, pc, o) for o in t[2]]
                self.write_lv(st, self.lvalue(st, pc, t[3]), T("call", name, -1, *vals))
                bi = t[4]
            else:
                break
        return st.get(("p", 0), UNDEF)

    def rvalue(self, st, ctx, r, dest, n):
        k = r[0]
        if k == "use":
            return self.operand(st, ctx, r[1], n)
        if k == "ref":
            lv = self.lvalue(st, ctx, r[2])
            if r[1]:
                if lv[0] == "L":
                    return T("ref", lv[1], lv[2], lv[3])
                v = lv[1]
                cur = st.get(v, v)
                return cur if cur.op == "ref" else v
            return self.read_lv(st, lv)
        if k == "rawptr":
            lv = self.lvalue(st, ctx, r[1] if isinstance(r[1], list) else r[2])
            if lv[0] == "L":
                return T("ref", lv[1], lv[2], lv[3])
            return lv[1]
        if k == "cast":
            if r[1].startswith("BoxDeref") and "p" in r[2]:
                # the place a Box owned by a local points to
                l, proj = r[2]["p"]
                if proj and proj[-1][0] == "F" and "boxed::Box" in str(proj[-1][2]):
                    lv = self.lvalue(st, ctx, (l, proj[:-1]))
                    if lv[0] == "L" and self.read_lv(st, lv).op in ("agg", "with"):
                        return T("ref", lv[1], lv[2], lv[3])
            v = self.operand(st, ctx, r[2], n)
            return self.cast(ctx, r[1], r[2], v, r[3])
        if k == "bin":
            return self.do_bin(st, ctx, r)
        if k == "un":
            v = self.operand(st, ctx, r[2], n)
            if r[1] == "Not":
                t = self.op_type(ctx, r[2]) if not isinstance(ctx.id, str) else None
                return neg(v)
            if r[1] == "Neg":
                return fneg(v)
            if r[1] == "PtrMetadata":
                return length(self.deref(st, v) if v.op == "ref" else v)
            return T("un", r[1], v)
        if k == "discr":
            v = self.read(st, ctx, r[1])
            t = r[2] if len(r) > 2 else self.place_type(ctx, r[1])
            return T("discr", v, self.prog.types[t].get("path", "?") if t is not None else "?")
        if k == "agg":
            return self.aggregate(st, ctx, r[1], r[2], n)
        if k == "repeat":
            v = self.operand(st, ctx, r[1], n)
            c = self.const_param(ctx, str(r[2]), "usize")
            return T("from_elem", v, c)
        if k == "len":
            return length(self.read(st, ctx, r[1]))
        return T("other", str(r)[:80])

    def do_bin(self, st, ctx, r):
        a = self.operand(st, ctx, r[2])
        b = self.operand(st, ctx, r[3])
        if a.op == "ref":
            a = self.deref(st, a)
        if b.op == "ref":
            b = self.deref(st, b)
        return binop(r[1], a, b)

    def cast(self, ctx, kind, o, v, to):
        ts = self.prog.ts(to)
        if kind.startswith("IntToInt"):
            ft = None
            if "p" in o or "ty" in o:
                t = self.op_type(ctx, o)
                ft = self.prog.ts(t) if t is not None else None
            if v.op == "int":
                bits = PRIM_SIZE.get(ts, 8) * 8
                x = v.a[0] & ((1 << bits) - 1)
                if ts not in UNSIGNED and x >> (bits - 1):
                    x -= 1 << bits
                return I(x)
            if ft in UNSIGNED and PRIM_SIZE.get(ft, 99) <= PRIM_SIZE.get(ts, 0):
                return v
            if ft == ts:
                return v
            # u8 -> i32 -> u8 style round trips
            return T("cast", ts, v)
        if kind.startswith("IntToFloat") or kind.startswith("FloatToInt") or kind.startswith("FloatToFloat"):
            return T("cast", ts, v)
        if kind.startswith("PtrToPtr") or kind.startswith("Pointer") or kind.startswith("Transmute") or "Coercion" in kind:
            if kind.startswith("PtrToPtr"):
                return T("ptrcast", ts, v)
            return v
        return v

    def aggregate(self, st, ctx, k, ops, n):
        vals = [self.operand(st, ctx, o, n) for o in ops]
        kk = k["k"]
        if kk == "tuple":
            return T("agg", "tuple", tuple(str(i) for i in range(len(vals))), *vals) if vals else UNIT
        if kk == "array":
            return T("agg", "array", tuple(str(i) for i in range(len(vals))), *vals)
        if kk == "closure":
            return T("agg", "closure:" + k["id"], tuple(str(i) for i in range(len(vals))), *vals)
        if kk == "adt":
            tag, names = self.adt_tag(k["path"], k.get("variant", 0), k.get("vname"), len(vals))
            v = T("agg", tag, names, *vals)
            if n is not None and isinstance(ctx, Ctx):
                a = self.prog.adts.get(k["path"])
                if a is not None and a.local:
                    n.aggs.append(v)
            return v
        if vals:
            return vals[0]
        return T("other", kk)

    def adt_tag(self, path, variant, vname, nvals):
        a = self.prog.adts.get(path)
        nm = path.split("::")[-1]
        if a is None:
            if path in ("std::option::Option", "std::result::Result"):
                return nm + "::" + vname, tuple(str(i) for i in range(nvals))
            return nm, tuple(str(i) for i in range(nvals))
        if a.kind == "enum" or len(a.variants) > 1:
            tag = nm + "::" + a.variants[variant][0]
            if nm in ("Option", "Result", "ControlFlow"):
                return tag, tuple(str(i) for i in range(nvals))
        else:
            tag = nm
        names = tuple(f[0] for f in a.variants[variant][1])
        if len(names) != nvals:
            names = tuple(str(i) for i in range(nvals))
        return tag, names

    # ---- transfer
    def kill_moved(self, st, ctx, ops):
        for o in ops:
            if isinstance(o, dict) and o.get("m") and "p" in o:
                if not o["p"][1]:
                    st.pop((ctx.id, o["p"][0]), None)
                else:
                    t = self.op_type(ctx, o)
                    if t is not None and "Guard<" in self.prog.ts(t) and not self.prog.ts(t).startswith("&"):
                        lv = self.lvalue(st, ctx, o["p"])
                        if lv[0] == "L":
                            self.write_lv(st, lv, MOVED)

    @staticmethod
    def rv_ops(r):
        k = r[0]
        if k == "use":
            return [r[1]]
        if k == "cast":
            return [r[2]]
        if k == "agg":
            return r[2]
        if k in ("un",):
            return [r[2]]
        if k == "bin":
            return [r[2], r[3]]
        if k == "repeat":
            return [r[1]]
        return []

    def stmts(self, n, st):
        ctx = n.ctx
        for s in n.stmts:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, ctx, s[2], s[1], n)
                self.kill_moved(st, ctx, self.rv_ops(s[2]))
                if not s[1][1]:
                    st[(ctx.id, s[1][0])] = v
                else:
                    self.write_lv(st, self.lvalue(st, ctx, s[1]), v, n)
            elif k == "dead":
                st.pop((ctx.id, s[1]), None)

    def transfer(self, n, st):
        k = n.kind
        n.stores = []
        n.aggs = []
        if k == "blk":
            self.stmts(n, st)
        elif k == "edge":
            self.edge(n, st)
            for pol, a in n.facts:
                if a is (FALSE if pol else TRUE) or self.policy.assume.get(a, pol) is not pol:
                    return None
        elif k == "drop":
            if not n.x[1]:
                st.pop((n.ctx.id, n.x[0]), None)
            else:
                t = self.place_type(n.ctx, n.x)
                if t is not None and "Guard<" in self.prog.ts(t):
                    lv = self.lvalue(st, n.ctx, n.x)
                    if lv[0] == "L":
                        self.write_lv(st, lv, MOVED)
        elif k == "bind":
            pctx, c, fo, argspec = n.x
            cc = n.ctx
            vals = []
            if argspec[0] == "ops":
                vals = [self.operand(st, pctx, o) for o in argspec[1]]
                self.kill_moved(st, pctx, argspec[1])
                if c[0] == "clos":
                    fv = self.operand(st, pctx, fo)
                    vals = [fv] + vals
            else:
                tv = self.operand(st, pctx, argspec[1])
                comps = list(tv.a[2:]) if tv.op == "agg" else []
                fv = self.operand(st, pctx, fo)
                vals = ([fv] if c[0] == "clos" else []) + comps
            self.bind_params(st, cc, c, vals)
        elif k == "ret":
            pctx, dest = n.x
            v = st.get((n.ctx.id, 0), UNDEF)
            self.drop_ctx(st, n.ctx)
            if not dest[1]:
                st[(pctx.id, dest[0])] = v
            else:
                self.write_lv(st, self.lvalue(st, pctx, dest), v, n)
        elif k == "optedge":
            v = self.operand(st, n.ctx, n.x[0])
            if v.op == "ref":
                v = self.deref(st, v)
            n.facts = tuple(self.atoms(isok(v), n.x[1]))
            for pol, a in n.facts:
                if a is (FALSE if pol else TRUE) or self.policy.assume.get(a, pol) is not pol:
                    return None
        elif k == "optbind":
            args, ai, c, pol, call = n.x
            v = self.operand(st, call.ctx, args[0])
            v = self.deref(st, v) if v.op == "ref" else v
            fv = [self.operand(st, call.ctx, args[ai])] if c[0] == "clos" else []
            want = c[1].argc - len(fv)
            vals = [pay(v) if pol else T("errpay", v)] if want else []
            self.bind_params(st, n.ctx, c, fv + vals[:want])
        elif k == "optret":
            v = st.get((n.ctx.id, 0), UNDEF)
            self.drop_ctx(st, n.ctx)
            st[(n.x[0].id, "optres", n.x[1])] = v
        elif k == "optasg":
            dest, spec, args, pol = n.x
            if spec[0] == "res":
                v = st.pop((n.ctx.id, "optres", spec[1]), UNDEF)
                if len(spec) > 2:
                    v = agg(spec[2], ("0",), (v,))
            elif spec[0] in ("ok", "err"):
                v = self.operand(st, n.ctx, args[0])
                v = self.deref(st, v) if v.op == "ref" else v
                v = agg("Result::Ok", ("0",), (pay(v),)) if spec[0] == "ok" else agg("Result::Err", ("0",), (T("errpay", v),))
            elif spec[0] == "op":
                v = self.operand(st, n.ctx, args[spec[1]])
            elif spec[0] == "pay":
                v = self.operand(st, n.ctx, args[0])
                v = pay(self.deref(st, v) if v.op == "ref" else v)
                v = v if v.op == "guard" else st.get(v, v)
            else:
                v = spec[1]
            self.kill_moved(st, n.ctx, args)
            if not dest[1]:
                st[(n.ctx.id, dest[0])] = v
            else:
                self.write_lv(st, self.lvalue(st, n.ctx, dest), v, n)
        elif k == "tryedge":
            h, ai, pol, dest = n.x
            v = st.get((h.ctx.id, "res", h.id, ai), UNDEF)
            n.facts = tuple(self.atoms(isok(v), pol))
            for p2, a in n.facts:
                if a is (FALSE if p2 else TRUE) or self.policy.assume.get(a, p2) is not p2:
                    return None
            if dest is not None:
                self.write_lv(st, self.lvalue(st, n.ctx, dest), v, n)
        elif k == "hof":
            self.hof_enter(n, st)
        elif k == "hofbind":
            self.hof_bind(n, st)
        elif k == "hofret":
            h, ai = n.x
            v = st.get((n.ctx.id, 0), UNDEF)
            self.drop_ctx(st, n.ctx)
            st[(h.ctx.id, "res", h.id, ai)] = v
            nm = h.x[0].split("::")[-1]
            if nm in ("fold", "rfold", "try_fold", "scan", "reduce"):
                st[(h.ctx.id, "acc", h.id)] = v
        elif k == "call":
            self.do_call(n, st)
        return st

    def drop_ctx(self, st, ctx):
        i = ctx.id
        for key in [x for x in st if not isinstance(x, Term) and x[0] == i]:
            del st[key]

    def bind_params(self, st, cc, c, vals):
        b = c[1]
        if c[0] == "clos":
            # closure bodies take (env, args...): args after env are separate MIR locals here
            st[(cc.id, 1)] = vals[0] if vals else UNDEF
            rest = vals[1:]
            if b.argc == len(rest) + 1:
                for i, v in enumerate(rest):
                    st[(cc.id, i + 2)] = v
            else:
                for i in range(2, b.argc + 1):
                    st[(cc.id, i)] = rest[i - 2] if i - 2 < len(rest) else T("cparam", cc.id, i)
        else:
            for i in range(1, b.argc + 1):
                st[(cc.id, i)] = vals[i - 1] if i - 1 < len(vals) else UNDEF

    # ---- switch facts
    def edge(self, n, st):
        o, val, nots = n.x
        v = self.operand(st, n.ctx, o)
        if v.op == "ref":
            v = self.deref(st, v)
        ty = self.op_type(n.ctx, o)
        n.facts = self.switch_facts(v, val, nots, ty is not None and self.prog.ts(ty) in PRIM_SIZE and self.prog.ts(ty) != "bool")
        if self.counters:
            n.facts = tuple((pol, self.count_test(a)) for pol, a in n.facts)
        self.narrow(st, n.facts)
        if self.counters:
            for pol, a in n.facts:
                if not pol and a.op == "isok" and a.a[0].op == "next":
                    for ph, rng in self.counters.items():
                        if ph.a[0] == a.a[0].a[1] and rng is a.a[0].a[0]:
                            st[ph.a[1][0]] = T("phi", n.id, (ph.a[1][0], ("end",)))

    def narrow(self, st, facts):
        """a test on a merged value tells which way was taken: values merged at the same place are those of the ways left"""
        for pol, a in facts:
            if a.op not in ("isok", "is") or a.a[0].op != "phi" or a.a[0] not in self.phi_in:
                continue
            ph = a.a[0]
            ways = self.phi_in[ph]
            test = isok if a.op == "isok" else (lambda v: isv(v, a.a[1]))
            left = [p for p, v in ways if test(v) is not (FALSE if pol else TRUE)]
            if len(left) == len(ways) or not left:
                continue
            for k, v in st.items():
                if isinstance(v, Term) and v.op == "phi" and v is not ph and v.a[0] == ph.a[0] and v in self.phi_in:
                    vs = {x for p, x in self.phi_in[v] if p in left}
                    if len(vs) == 1:
                        x = vs.pop()
                        if x.op != "agg":
                            st[k] = x

    def count_test(self, a):
        """`i < n` of a counting loop is `the sequence start..n has another element`"""
        if a.op == "lt" and a.a[0].op == "elem" and a.a[0].a[0].op == "agg" and a.a[0].a[0].a[0] == "Range" and a.a[0].a[0].a[3] is a.a[1] \
                and any(ph.a[0] == a.a[0].a[1] and rng is a.a[0].a[0] for ph, rng in self.counters.items()):
            return isok(T("next", a.a[0].a[0], a.a[0].a[1]))
        return a

    def find_counters(self):
        out = {}
        byid = {n.id: n for n in self.order}
        tests = {}
        for n in self.order:
            for pol, a in n.facts:
                if pol and a.op == "lt" and a.a[0].op == "phi":
                    tests.setdefault(a.a[0], []).append((n, a.a[1]))
        cand = {}
        for ph, ts in tests.items():
            h = byid.get(ph.a[0])
            if h is None or ph not in self.phi_in or isinstance(ph.a[1][0], Term) or ph.a[1][0][0] == "h" or ph.a[1][1] or ph in self.counters:
                continue
            ins = self.phi_in[ph]
            back = [(p, v) for p, v in ins if h in self.doms(p)]
            start = {v for p, v in ins if (p, v) not in back}
            step = binop("Add", ph, TRUE)
            if len(start) != 1 or not back or any(v is not step for _, v in back):
                continue
            for n, end in ts:
                if any(x.op == "phi" and x.a[0] == h.id for x in [end] + list(subterms(end))):
                    continue
                if all(n in self.doms(p) for p, _ in back):
                    cand[ph] = (list(start)[0], end)
                    break
        for ph, (start, end) in cand.items():
            if not any(x in cand for x in [start, end] + list(subterms(start)) + list(subterms(end))):
                out[ph] = agg("Range", ("start", "end"), (start, end))
        return out

    def switch_facts(self, v, val, nots, number=False):
        if v.op == "discr":
            x, path = v.a
            a = self.prog.adts.get(path)
            base = {"std::option::Option": ["None", "Some"], "std::result::Result": ["Ok", "Err"],
                    "std::ops::ControlFlow": ["Continue", "Break"]}.get(path)
            if path == "std::cmp::Ordering":
                names = {-1: "Less", 255: "Less", 0: "Equal", 1: "Greater"}
            elif base:
                names = dict(enumerate(base))
            elif a is not None:
                names = {d: nm for nm, _, d in a.variants}
            else:
                names = {}
            out = []
            if val is not None:
                if val in names:
                    out += self.atoms(isv(x, names[val]), True)
                if path == "std::cmp::Ordering":
                    for w in ("Less", "Equal", "Greater"):
                        if w != names.get(val):
                            out += self.atoms(isv(x, w), False)
            else:
                rest = sorted(set(names.values()) - {names.get(d) for d in nots})
                if len(rest) == 1:
                    out += self.atoms(isv(x, rest[0]), True)
                for d in nots:
                    if d in names:
                        out += self.atoms(isv(x, names[d]), False)
            return tuple(out)
        if val is not None:
            if val in (0, 1) and not number and self.boolish(v):
                return tuple(self.atoms(v, bool(val)))
            return tuple(self.atoms(eq(v, I(val)), True))
        if nots == [0] and not number and self.boolish(v):
            return tuple(self.atoms(v, True))
        out = []
        for d in nots:
            out += self.atoms(eq(v, I(d)), False)
        return tuple(out)

    def boolish(self, v):
        if is_bool(v) or v in (TRUE, FALSE):
            return True
        if v.op == "bin" and v.a[0] in ("BitAnd", "BitOr", "BitXor"):
            return True
        if v.op == "phi":
            return True  # integers switched on are compared explicitly; an int phi gives facts nobody asks for
        if v.op in ("call", "field", "pay", "param", "index", "elem", "get", "unwrap_or", "cparam", "maponce"):
            return True
        return False

    def atoms(self, v, pol):
        """(polarity, atom) facts implied by bool v == pol"""
        if v.op == "not":
            return self.atoms(v.a[0], not pol)
        out = [(pol, v)]
        if v.op == "bin" and v.a[0] == "BitAnd" and pol:
            out += self.atoms(v.a[1], True) + self.atoms(v.a[2], True)
        if v.op == "bin" and v.a[0] == "BitOr" and not pol:
            out += self.atoms(v.a[1], False) + self.atoms(v.a[2], False)
        if v.op == "isok" and pol and v.a[0].op == "tryconv" and v.a[0].a[0] in UNSIGNED and PRIM_SIZE.get(v.a[0].a[0], 16) <= 4:
            out.append((True, lt(v.a[0].a[1], I(1 << 8 * PRIM_SIZE[v.a[0].a[0]]))))
        if v.op == "eq" and pol:
            # equal structures have equal fields
            x, y = v.a
            if y.op != "agg":
                x, y = y, x
            if y.op == "agg" and "::" not in y.a[0] and not y.a[0].startswith("closure:") and y.a[0] != "array":
                for nm, fv in zip(y.a[1], y.a[2:]):
                    xv = agg_get(x, nm) if x.op == "agg" else T("field", x, nm)
                    if xv is not None:
                        e = eq(xv, fv)
                        if e.op == "eq":
                            out += self.atoms(e, True)
        # an element taken from a filtered iterator satisfies the filter
        if v.op == "isok" and pol and v.a[0].op == "next":
            it = v.a[0].a[0]
            while isinstance(it, Term) and it.op in ("filter", "map", "enum", "rev", "take", "skip", "coll", "copy", "takewhile", "filtermap", "copied"):
                if it.op in ("filter", "takewhile"):
                    r = self.filter_ret.get(it.a[1])
                    if r is not None:
                        out += self.atoms(r, True)
                if it.op == "filtermap":
                    out += self.atoms(isok(it.a[1]), True)
                it = it.a[0]
        if v.op == "isok" and v.a[0].op == "boolopt":
            out += self.atoms(v.a[0].a[0], pol)
        if v.op == "isok" and v.a[0].op == "optmap":
            out += self.atoms(isok(v.a[0].a[0]), pol) if (pol or v.a[0].a[2] == "map") else []
            if pol and v.a[0].a[2] == "and_then":
                r = v.a[0].a[3] if len(v.a[0].a) > 3 else v.a[0].a[1]
                r = r.a[0] if len(v.a[0].a) <= 3 and r.op == "pay" else r
                if len(v.a[0].a) > 3 or v.a[0].a[1].op == "pay":
                    out += self.atoms(isok(r), True)
            if pol and v.a[0].a[2] == "filter":
                out += self.atoms(v.a[0].a[3], True)
        return out

    # ---- HOFs
    def hof_enter(self, n, st):
        name = n.x[0].split("::")[-1]
        if name in ("fold", "rfold", "try_fold", "scan") and (n.ctx.id, "acc", n.id) not in st:
            init = self.operand(st, n.ctx, n.x[2][1])
            if init.op == "ref" and False:
                init = self.deref(st, init)
            st[(n.ctx.id, "acc", n.id)] = init

    def hof_bind(self, n, st):
        name, fn, args, ai, c, h = n.x
        pctx = h.ctx
        cc = n.ctx
        recv = self.operand(st, pctx, args[0]) if args else UNDEF
        rv = self.deref(st, recv) if recv.op == "ref" else recv
        m = name.split("::")[-1]
        ty = name.split("::")[0]
        fv = self.operand(st, pctx, args[ai]) if c[0] == "clos" else None
        nparam = c[1].argc - (1 if c[0] == "clos" else 0)
        site = h.id
        vals = []
        e = elem(rv, site)
        if ty in ("Option", "Result"):
            if m in OPT_PAY and (m != "map_or_else" or ai == 2):
                vals = [pay(rv)]
            elif m in ("map_err", "or_else", "unwrap_or_else", "map_or_else", "inspect_err") and ty == "Result":
                vals = [T("errpay", rv)]
            elif m == "zip_with":
                vals = [pay(rv)]
        elif m in ("fold", "rfold", "try_fold", "scan"):
            vals = [st.get((pctx.id, "acc", h.id), UNDEF), e]
        elif m in ("for_each_with", "map_with", "try_for_each_with"):
            vals = [self.operand(st, pctx, args[1]), e]
        elif m in ("for_each_init", "map_init"):
            vals = [] if ai == 1 else [T("init", site), e]
        elif m in ITER_ELEM2:
            vals = [e, T("elem2", rv, site)]
        elif m in ("min_by_key", "max_by_key"):
            vals = [e]
        elif m in ITER_ELEM1:
            vals = [e]
        elif m == "call_once" and len(args) > 1:
            vals = []
        elif m in ("from_fn",):
            vals = [T("pos", T("from_fn", site), site)]
        elif m in ("and_modify",):
            vals = [T("entryval", rv, site)]
        elif m in ("map",):
            vals = [e]
        if any(v is e for v in vals):
            self.hof_loop[n.id] = (rv, site)
        while len(vals) < nparam:
            vals.append(T("cparam", site, ai, len(vals)))
        vals = vals[:nparam]
        self.bind_params(st, cc, c, ([fv] if c[0] == "clos" else []) + vals)

    # -------------------------------------------------- calls
    def do_call(self, n, st):
        from . import models
        name, fn, args, dest, hof = n.x
        ctx = n.ctx
        raw = [self.operand(st, ctx, o) for o in args]
        vals = [self.deref(st, r) if r.op == "ref" else r for r in raw]
        c = Call()
        c.name, c.fn, c.raw, c.args, c.node = name, fn, raw, vals, n
        c.argtys = [self.op_type(ctx, o) for o in args]
        c.desttys = self.place_type(ctx, dest)
        n.call = c
        res = models.apply(self, n, st, c, hof)
        self.kill_moved(st, ctx, args)
        c.dest = res
        if dest is not None:
            if not dest[1]:
                st[(ctx.id, dest[0])] = res
            else:
                self.write_lv(st, self.lvalue(st, ctx, dest), res, n)

    # -------------------------------------------------- queries
    def calls(self, *names):
        for n in self.order:
            if n.call is not None and (not names or n.call.name in names):
                yield n

    def alts(self, t, seen=None, node=None):
        """the non-phi values a term may stand for"""
        out = []
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi" and x in self.phi_in:
                st.extend(v for _, v in self.phi_in[x])
            else:
                out.append(x)
        return out

    def alts_at(self, t):
        """[(pred node or None, value)] through nested phis"""
        out = []
        seen = set()
        st = [(None, t)]
        while st:
            p, x = st.pop()
            if x in seen and x.op == "phi":
                continue
            if x.op == "phi" and x in self.phi_in:
                seen.add(x)
                st.extend(self.phi_in[x])
            else:
                out.append((p, x))
        return out

    def reach(self, starts, stop=lambda n: False, back=False):
        seen = set()
        st = list(starts)
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            if stop(n):
                continue
            st.extend(n.pred if back else n.succ)
        return seen

    def holds(self, node, pred, since=None, _depth=0):
        """every path (from `since`, default the entry) to `node` passes a fact or node satisfying pred.
        pred(kind, x): ('fact', (pol, atom)) or ('node', node)"""
        sat = self.pred_memo(pred, since)
        r = sat.get(("reach", _depth))
        if r is None:
            starts = [self.entry] if since is None else list(since.succ)
            r = sat[("reach", _depth)] = self.reach(starts, lambda n: n is since or self.node_sat(n, pred, _depth, since))
        return node not in r

    def pred_memo(self, pred, since):
        """results for the goal last asked for"""
        m = getattr(self, "_pm", None)
        if m is None or m[0] is not pred or m[1] is not since:
            m = self._pm = (pred, since, {})
        return m[2]

    def node_sat(self, n, pred, depth, since=None):
        m = self.pred_memo(pred, since)
        k = (n, depth)
        r = m.get(k)
        if r is None:
            if pred("node", n):
                r = True
            else:
                r = any(self.fact_sat(f, pred, depth, (), since) for f in n.facts)
            self.pred_memo(pred, since)[k] = r
        return r

    def fact_sat(self, f, pred, depth, seen=(), since=None):
        if pred("fact", f):
            return True
        pol, a = f
        if f in seen and a.op == "phi" and (since is None or self.under(since, a)):
            return True             # the value carried over from an earlier turn, for which the same was shown
        if depth > 3 or f in seen:
            return False
        # facts about a phi: every way of getting that value must satisfy the goal
        ph, rebuild = None, None
        if a.op == "phi":
            ph, rebuild = a, (lambda v: v)
        elif a.op == "isok" and a.a[0].op == "phi":
            ph, rebuild = a.a[0], isok
        elif a.op == "is" and a.a[0].op == "phi":
            ph, rebuild = a.a[0], (lambda v: isv(v, a.a[1]))
        elif a.op == "eq":
            for i in (0, 1):
                if a.a[i].op == "phi" and a.a[1 - i].op in ("int", "agg", "str"):
                    ph, rebuild = a.a[i], (lambda v, o=a.a[1 - i]: eq(v, o))
        if ph is None or ph not in self.phi_in:
            return False
        ins = self.phi_in[ph]
        if not ins:
            return False
        for p, v in ins:
            b = rebuild(v)
            if (b is TRUE and not pol) or (b is FALSE and pol):
                continue
            ok = False
            if b not in (TRUE, FALSE):
                for g in self.atoms(b, pol):
                    if self.fact_sat(g, pred, depth + 1, seen + (f,), since):
                        ok = True
                        break
            if not ok and not self.holds_at(p, pred, depth + 1, since):
                return False
        return True

    def under(self, since, ph):
        """every evaluation of the merged value comes after `since`, in the same visit of it"""
        if not hasattr(self, "_byid"):
            self._byid = {n.id: n for n in self.order}
        h = self._byid.get(ph.a[0])
        return h is not None and h is not since and since in self.doms(h)

    def holds_at(self, p, pred, depth=0, since=None):
        """pred established on every path (from since) up to and including p"""
        if self.node_sat(p, pred, depth, since):
            return True
        return self.holds(p, pred, since, depth)

    def facts_at(self, node):
        """facts on every path to node (edge nodes dominating it)"""
        out = []
        d = self.doms(node)
        for n in d:
            out.extend(n.facts)
        return out

    def _dom(self):
        if getattr(self, "_domt", None) is not None:
            return self._domt
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for n in self.order[1:]:
                ps = [p for p in n.pred if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    a, b = p, new
                    while a is not b:
                        while self.rpo[a] > self.rpo[b]:
                            a = idom[a]
                        while self.rpo[b] > self.rpo[a]:
                            b = idom[b]
                    new = a
                if idom.get(n) is not new:
                    idom[n] = new
                    changed = True
        self._domt = idom
        return idom

    def doms(self, node):
        idom = self._dom()
        out = [node]
        while node is not self.entry:
            node = idom.get(node)
            if node is None:
                break
            out.append(node)
        return out

    def dominates(self, a, b):
        return a in self.doms(b)

    def must_reach(self, start, pred, exits=None):
        """every path from start (exclusive) to a normal return passes a node with pred"""
        seen = set()
        st = list(start.succ)
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            if pred(n):
                continue
            if n is self.exit:
                return False
            st.extend(n.succ)
        return True

    def result(self):
        """value of the root's return place at exit"""
        return self.exit.inn.get((self.rootctx.id, 0), UNDEF) if self.exit.inn is not None else UNDEF

    def results(self):
        return self.alts_at(self.result())

    def local_named(self, ctx, name):
        for nm, p in ctx.body.names:
            if nm == name:
                return p
        return None
