"""C26-C28: memory maps of the vectors of a dump."""
from concurrent.futures import ThreadPoolExecutor
from . import check
from .common import *
from .norm import *
from .wire import *
from .persist import Dump, Region, ok_results, at_ok, good_reach, one_size, data_values, readers
from .panics import linear
from engine import witness
from engine.flow import PRIM_SIZE

ALIGN = ("align_offset", "align_of", "align_of_val", "is_aligned", "is_aligned_to")


def lin(f, t):
    """linear form with the payload atoms resolved"""
    out = {}
    for k, v in linear(settle(f, t)).items():
        k = settle(f, k) if k is not None else None
        if k is not None and k.op == "len":
            p = part(f, k.a[0])
            if p is not None and p[1] is not None:
                for j, z in sub(p[2], p[1]).items():
                    out[j] = out.get(j, 0) + v * z
                continue
        out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def sub(a, b):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) - v
    return {k: v for k, v in d.items() if v}


def const(d):
    """value of a linear form without atoms"""
    return d.get(None, 0) if set(d) <= {None} else None


def part(f, t):
    """(root, start, end) of bytes cut out of a larger slice"""
    x = settle(f, t)
    while True:
        if x.op in ("copy", "bytescopy", "coll", "copied"):
            x = settle(f, x.a[0])
        elif x.op == "pay" and x.a[0].op in ("getslice",):
            x = x.a[0]
        elif x.op == "pay" and x.a[0].op == "phi":
            ys = {settle(f, pay(y)) for y in f.alts(x.a[0]) if not (y.op == "agg" and y.a[0] in NOKV)}
            if len(ys) != 1:
                return None
            x = ys.pop()
        else:
            break
    if x.op in ("slice", "getslice"):
        r = part(f, x.a[0])
        s, e = lin(f, x.a[1]), lin(f, x.a[2])
        if r is None or r[1] is None:
            return x.a[0], s, e
        return r[0], sub(s, {k: -v for k, v in r[1].items()}), sub(e, {k: -v for k, v in r[1].items()})
    return x, None, None


# ---------------------------------------------------------------- C26
@check("C26")
def c26(w, rep):
    """vectors bounded by their record and by the life of the map"""
    lib = witness.library()
    vs = witness.variants()

    def both(v):
        return witness.compile_(v[2], lib, True), witness.compile_(v[2], lib, False)
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(both, vs))
    for (name, head, path), (twin, bad) in zip(vs, res):
        key = "witness:" + name
        what = head["what"]
        if not twin[0]:
            rep.unk(key, "the program respecting the rule does not compile: %s" % "; ".join(sorted(twin[1]))[:300])
        elif bad[0]:
            rep.bad(key, "a program compiles where " + what, "witness/%s.rs" % name)
        elif any(c in head["codes"] for c in bad[1]):
            rep.ok(key, "witness/%s.rs" % name, "refused (%s), its twin compiles" % ", ".join(sorted(c for c in bad[1] if c in head["codes"])))
        else:
            rep.unk(key, "refused for another reason: %s" % "; ".join(sorted(bad[1]))[:300])
    rep.count("programs which must not compile", len(vs), 10)
    own_record(w, rep)
    sealed(w, rep)


def own_record(w, rep):
    b = w.fn("get_data", impl_of="DataMap")
    f = w.flow(b)
    n_ = 0
    for n in f.order:
        if n.call is None or not n.call.name.endswith("from_raw_parts"):
            continue
        n_ += 1
        ptr_, cnt = settle(f, n.call.args[0]), settle(f, n.call.args[1])
        while ptr_.op == "ptrcast":
            ptr_ = settle(f, ptr_.a[1])
        key = "record"
        if ptr_.op != "ptr":
            rep.unk(key, "the elements start at %s" % show(ptr_, 6), n.where)
            continue
        src = part(f, ptr_.a[0])
        if src is None or src[1] is None:
            (rep.unk if src is None or opaque(src[0]) else rep.bad)(key, "the elements start at %s, not at a record" % show(ptr_, 6), n.where)
            continue
        root, s, e = src
        size = sub(e, s)
        own = owned(f, root, s, size)
        rep.tri(own, key + ":bytes", "the elements are taken in bytes %s to %s, not in the bytes of the record" % (lshow(s), lshow(e)), n.where,
                okmsg="the bytes whose number is written before them")
        # number of elements: bytes of the record / size of an element
        if cnt.op == "bin" and cnt.a[0] == "Div" and one_size(cnt.a[2]):
            d = sub(lin(f, cnt.a[1]), size)
            c = const(d)
            more = {k for k in d if k is not None}
            if c is not None:
                good = c <= 0
            elif all(one_size(k) and d[k] == 1 for k in more) and len(more) == 1:
                # rounded up: right when the bytes are a whole number of elements
                good = None if f.holds(n, rem_known) else False
            else:
                good = None
        elif const(sub(lin(f, cnt), size)) is not None:
            good = None if compared(f, n, cnt) and any(x.op == "size_of" for _, a in f.facts_at(n) for x in subterms(a)) and not f.holds(n, rem_known) else False
        elif cnt.op == "bin" and cnt.a[0] in ("Div", "Shr"):
            good = None if opaque(cnt) else False
        elif cnt.op in ("field", "int", "len") or not opaque(cnt):
            good = None if compared(f, n, cnt) else False
        else:
            good = None
        rep.tri(good, key + ":count", "the number of elements is %s, it is not bounded by the bytes of the record divided by the size of an element" % show(cnt, 6),
                n.where, okmsg="bytes / size of an element")
        # aligned
        al = aligned(f, n)
        rep.tri(al if al is not None else None if f.holds(n, align_any(f)) else False, key + ":aligned",
                "bytes are viewed as elements of T without a test that they are aligned for T", n.where, okmsg="alignment tested")
    rep.count("slices made from raw memory in get_data", n_, 0)
    if n_ == 0:
        rep.unk("record", "get_data does not make its result by from_raw_parts", "%s:%d" % (b.file, b.line))


def lshow(d):
    return " + ".join(("%s" % v if k is None else show(k, 4) if v == 1 else "%d*%s" % (v, show(k, 4))) for k, v in d.items()) or "0"


def owned(f, root, s, size):
    """is size the number read in the 8 bytes before the bytes starting at s?"""
    ks = [k for k in size if k is not None]
    if len(ks) != 1 or size.get(None, 0) > 0 or size[ks[0]] != 1:
        if any(opaque(k) for k in ks):
            return None
        return False
    k = ks[0]
    if k.op != "decode":
        return None if opaque(k) else False
    p = part(f, k.a[2])
    if p is None or p[1] is None:
        return None
    if p[0] is not root:
        return None
    c = const(sub(s, p[2]))
    if c is None or c < 0:
        return False if c is not None or not any(opaque(x) for x in s if x is not None) else None
    return True if size.get(None, 0) + c <= 0 else False


def rem_known(k, y):
    return k == "fact" and y[0] and y[1].op == "eq" and any(x.op == "bin" and x.a[0] == "Rem" and one_size(x.a[2]) for x in y[1].a)


def compared(f, n, t):
    """some comparison involving t was made before n"""
    return any(a.op in ("lt", "eq") and t in set(subterms(settle(f, a))) for _, a in f.facts_at(n))


def is_align(x):
    return x.op == "call" and x.a[0].split("::")[-1] in ALIGN


def aligned(f, n):
    """on each path the start was found aligned for T; False when what is tested is another place, or a smaller alignment"""
    start = settle(f, n.call.args[0])
    wrong = []

    def bare(t):
        t = settle(f, t)
        while t.op in ("ptrcast", "cast"):
            t = settle(f, t.a[1])
        return t

    def place(t):
        t = bare(t)
        if t.op != "ptr":
            return None
        p = part(f, t.a[0])
        return None if p is None else (p[0], p[1] or {})

    def meant(t, al):
        """the alignment of T, of the start"""
        al = settle(f, al)
        while al.op == "cast":
            al = settle(f, al.a[1])
        good = True
        if al.op in ("min", "max") and any(is_align(z) for z in al.a):
            good = None if al.op == "max" else False
        elif al.op == "call" and al.a[0].endswith("align_of"):
            good = True
        elif al.op == "size_of" or al.op == "max" and any(z.op == "size_of" for z in al.a):
            good = True
        elif al.op == "int":
            good = al.a[0] >= 16
        elif not is_align(al):
            good = None
        x, y = place(t), place(start)
        if good and x is not None and y is not None and (x[0] is not y[0] or sub(x[1], y[1])):
            d = const(sub(x[1], y[1])) if x[0] is y[0] else None
            good = None if x[0] is not y[0] and (opaque(x[0]) or opaque(y[0])) else False
            if d is not None and d % 16 == 0:
                good = None
        if good is False:
            wrong.append((t, al))
        return good

    def pred(k, y):
        if k != "fact":
            return False
        pol, a = y
        if a.op == "eq" and pol:
            x, z = settle(f, a.a[0]), settle(f, a.a[1])
            for p, q in ((x, z), (z, x)):
                if q is I(0) and p.op == "call" and p.a[0].endswith("align_offset"):
                    return meant(p.a[-2], p.a[-1]) is True
                if q is I(0) and p.op == "bin" and p.a[0] == "Rem" and any(is_align(s) for s in subterms(p.a[2])):
                    return meant(p.a[1], p.a[2]) is not False
        return pol and a.op == "call" and a.a[0].endswith("is_aligned")
    if f.holds(n, pred):
        return True
    return False if wrong else None


def align_any(f):
    def pred(k, y):
        return k == "fact" and any(is_align(s) for s in subterms(settle(f, y[1])))
    return pred


def sealed(w, rep):
    """the map cannot be taken out of what lends it"""
    dm, io = w.adt("DataMap"), w.adt("HnswIo")
    for a in (dm, io):
        for fn, ty, vis in a.fields:
            ts = w.prog.ts(ty)
            if not ("Mmap" in ts or "DataMap" in ts):
                continue
            key = "sealed:%s.%s" % (a.path.split("::")[-1], fn)
            rep.req(str(vis) != "pub", key, "the map can be replaced from outside while vectors of it are in use: field %s is public" % fn)
            shared = [c for c in ("RefCell<", "Mutex<", "RwLock<", "::Cell<", "ArcSwap") if c in ts]
            rep.tri(None if shared else True, key + ":fixed", "%s can be replaced through a shared reference (%s)" % (fn, ts))
    # lifetimes changed by force
    n = 0
    for b in w.prog.bodies.values():
        if b.file.endswith("libext.rs"):
            continue
        n += 1
        for ok, msg, line in forced(w, b):
            rep.tri(ok, "forced:%s" % b.name, msg, "%s:%s" % (b.file, line))
    rep.count("functions searched for lifetimes changed by force", n, 50)
    rep.ok("forced", "", "no reference is transmuted into one of the same type")


def forced(w, b):
    """[(verdict, message, line)]: references whose lifetime is changed by unsafe means"""
    out = []
    for bb in b.blocks:
        t = bb["t"]
        if t and t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1]:
            fn = t[1]["fn"]
            if fn["path"].split("::")[-1] in ("transmute", "transmute_copy", "transmute_unchecked") and len(fn["args"]) >= 2:
                x, y = w.prog.ts(fn["args"][0]), w.prog.ts(fn["args"][1])
                if x == y:
                    out.append((False, "a %s is transmuted into the same type: only its lifetime changes" % x, t[-1][1]))
                elif "&" in y or "DataMap" in y or "Mmap" in y:
                    out.append((None, "a %s is transmuted into %s" % (x, y), t[-1][1]))
        for st in bb["s"]:
            if st[0] == "=" and st[2][0] == "cast" and str(st[2][1]).startswith("Transmute"):
                y = w.prog.ts(st[2][-1])
                if "&" in y:
                    out.append((None, "transmuted into %s" % y, st[-1][1]))
    return out


# ---------------------------------------------------------------- C27
SHRINK = ("remove", "swap_remove", "shift_remove", "swap_remove_entry", "shift_remove_entry", "clear", "retain", "pop", "truncate", "drain", "split_off", "swap_remove_full", "swap_remove_index", "shift_remove_index",
          "shift_remove_full")
SHUFFLE = ("sort_keys", "sort_by", "sort_unstable_by", "sort_unstable_keys", "reverse", "swap_indices", "move_index", "sort_by_key", "sort_by_cached_key")


class Layout:
    """the data file, as it is written"""

    def __init__(self, w):
        self.d = d = Dump(w)
        items = d.items[d.data]
        loops = [i for i in items if isinstance(i, Loop)]
        head = [i for i in items if isinstance(i, Ev)]
        if len(loops) != 1 or isinstance(items[-1], Ev):
            raise Unclear("the data file is not a head and a list of records")
        rec = loops[0].items
        while len(rec) == 1 and isinstance(rec[0], Loop):
            rec = rec[0].items
        if any(isinstance(i, Loop) or i.width is None for i in rec):
            raise Unclear("a record is not a list of values")
        if any(i.width.op != "int" for i in head + rec[:-1]):
            raise Unclear("values of unknown size before the vector")
        self.head = [(e, e.width.a[0]) for e in head]
        self.h = sum(n for _, n in self.head)
        self.at, self.kind, o = {}, {}, 0
        for e in rec[:-1]:
            nm = "id" if e.value.op == "field" and e.value.a[1] == w.pf["id"] else "len" if e.value is rec[-1].width else "mark" if e.value.op == "int" else None
            if nm is None or nm in self.at:
                raise Unclear("values of a record: %s" % show(e.value, 4))
            self.at[nm], self.kind[nm], o = o, (e.kind, e.width.a[0]), o + e.width.a[0]
        self.data = o
        if set(self.at) < {"id", "len"}:
            raise Unclear("a record has no id or no length")


def field_at(f, t, ty=None):
    """(type, root, start) of a number decoded from a slice"""
    x = settle(f, t)
    small = None
    while x.op == "cast":
        if PRIM_SIZE.get(x.a[0], 8) < 8:
            small = x.a[0]
        x = settle(f, x.a[1])
    if x.op != "decode":
        return None
    p = part(f, x.a[2])
    if p is None or p[1] is None:
        return None
    return (x.a[0], small or x.a[1]), p[0], p[1], const(sub(p[2], p[1]))


@check("C27")
def c27(w, rep):
    """each record is found under its id"""
    b = w.fn("from_hnswdump", impl_of="DataMap")
    wh = "%s:%d" % (b.file, b.line)
    getter(w, rep)
    accessors(w, rep)
    try:
        lay = Layout(w)
    except Unclear as e:
        rep.unk("layout", "what is dumped cannot be listed: %s" % e, wh)
        return
    f = w.flow(b, stop=[w.fn("load_description").id])
    oks = ok_results(f)
    if not oks:
        rep.bad("never", "never returns a map", wh)
    for at, v in oks:
        v = settle(f, pay(v))
        if v.op != "agg" or agg_get(v, w.dm_map) is None:
            rep.unk("map", "the result is %s" % show(v, 4), wh)
            continue
        scan(w, rep, lay, f, at, v, wh)
        names(w, rep, f, at, v, wh)


def scan(w, rep, lay, f, at, v, wh):
    h = settle(f, agg_get(v, w.dm_map))
    while h.op in ("copy", "coll"):
        h = settle(f, h.a[0])
    if h.op != "new":
        rep.unk("scan", "the table of ids is %s" % show(h, 5), wh)
        return
    ins = []
    for n in f.order:
        if n.call is None or not n.call.args:
            continue
        m, x = mname(n), settle(f, n.call.args[0])
        if x.op == "entry" and x.a[0] is h and m in ("or_insert", "insert"):
            ins.append((n, x.a[1], n.call.args[1]))
            continue
        if x is not h or m == "entry":
            continue
        if m == "insert":
            ins.append((n, n.call.args[1], n.call.args[2]))
        elif m in SHRINK:
            rep.bad("scan:removed", "ids are removed from the table of ids by %s" % m, n.where)
        elif m in SHUFFLE:
            rep.bad("scan:order", "the table of ids is reordered by %s" % m, n.where)
        elif m not in QUIET:
            rep.unk("scan:other", "the table of ids is changed by %s" % m, n.where)
    if len(ins) != 1:
        rep.unk("scan", "%d insertions in the table of ids" % len(ins), wh)
        if not ins:
            return
    reg = Region(f)
    for n, k, x in ins:
        one_insert(w, rep, lay, f, reg, at, n, k, x)
    rep.count("insertions in the table of ids", len(ins), 1)


def varies(f, ph, P):
    """can the value differ from one turn of the loop of P to another"""
    return ph.a[0] == P.a[0] or any(P in set(subterms(settle(f, v))) or any(x.op == "phi" and x.a[0] == P.a[0] for x in subterms(settle(f, v))) for _, v in f.phi_in[ph])


QUIET = ("len", "reserve", "with_capacity", "keys", "get", "contains_key", "is_empty", "iter", "shrink_to_fit", "capacity", "values", "fmt", "clone", "get_index", "last", "first")


def one_insert(w, rep, lay, f, reg, at, n, key, addr):
    idt = field_at(f, key)
    wh = n.where
    if idt is None:
        x = settle(f, key)
        (rep.unk if opaque(x) or x.op == "phi" else rep.bad)("scan:id", "a record is listed under %s" % show(x, 5), wh)
        return
    kind, root, s, size = idt
    ps = [k for k in s if k is not None]
    if len(ps) != 1 or ps[0].op != "phi" or s[ps[0]] != 1 or ps[0] not in f.phi_in:
        rep.unk("scan:id", "the id of a record is read at %s" % lshow(s), wh)
        return
    P = ps[0]
    cut_addresses(f, rep, {P})
    wantk = lay.kind["id"][0]
    ok = s.get(None, 0) == lay.at["id"] and size in (None, lay.kind["id"][1]) and kind[0] == wantk[0] and PRIM(kind[1]) == PRIM(wantk[1])
    rep.req(ok, "scan:id", "the id is read as %s at byte %d of a record, it is written as %s at byte %d" % (kind, s.get(None, 0), wantk, lay.at["id"]), wh)
    # its records start where the head ends and follow each other
    start, back = [], []
    for p, x in f.phi_in[P]:
        d = sub(lin(f, x), {P: 1})
        (back if P in lin(f, x) else start).append((p, x))
    for p, x in start:
        c = const(lin(f, x))
        rep.tri(c == lay.h if c is not None else None, "scan:first", "the first record is read at %s, the head of the file has %d bytes" % (show(settle(f, x), 4), lay.h), p.where,
                okmsg="the first record follows the head")
    size_term = None
    for p, x in back:
        d = sub(lin(f, x), {P: 1})
        ks = [k for k in d if k is not None]
        if len(ks) > 1 or any(d[k] != 1 for k in ks):
            rep.unk("scan:next", "the next record is %s bytes after" % lshow(d), p.where)
            continue
        if not ks:
            rep.bad("scan:next", "the next record is always looked for %s bytes after" % lshow(d), p.where)
            continue
        fl = field_at(f, ks[0])
        if fl is None:
            each = {x for x in subterms(ks[0]) if x.op in ("phi", "next", "elem", "pos", "readbytes", "io")} - {x for b in f.phi_in for x in (b,) if not varies(f, b, P)}
            (rep.unk if each else rep.bad)("scan:next", "the next record is %s bytes after" % lshow(d), p.where)
            continue
        kind, r2, s2, z2 = fl
        o = const(sub(s2, {P: 1}))
        wk, wn = lay.kind["len"]
        if r2 is not root or o is None:
            rep.unk("scan:next", "the length of a record is read at %s" % lshow(s2), p.where)
            continue
        good = o == lay.at["len"] and z2 in (None, wn) and kind[0] == wk[0] and PRIM(kind[1]) == PRIM(wk[1])
        rep.req(good, "scan:length", "the length of a record is read as %s at its byte %d, it is written as %s at byte %d" % (kind, o, wk, lay.at["len"]), p.where)
        rep.req(d.get(None, 0) == lay.data, "scan:next", "the next record is looked for %d bytes after the vector of this one starts" % (d.get(None, 0) - lay.data), p.where)
        size_term = ks[0]
    rep.req(bool(back), "scan:loop", "only one record is listed", wh)
    # value kept, as get_data uses it
    val = lin(f, addr)
    off = const(sub(val, {P: 1}))
    g = getter_offsets(w)
    if off is None or g is None:
        rep.unk("scan:address", "the address kept is %s" % lshow(val), wh)
    else:
        lo, ds = g
        rep.req(off + lo == lay.at["len"], "scan:address", "the length of a record is looked for at its byte %d, it is at byte %d" % (off + lo, lay.at["len"]), wh)
        rep.req(off + ds == lay.data, "scan:address:data", "the vector of a record is looked for at its byte %d, it is at byte %d" % (off + ds, lay.data), wh)
    # every record: each turn lists one, and the loop goes to the end
    head = node_by_id(f, P.a[0]) if isinstance(P.a[0], int) else None
    if head is None:
        rep.unk("scan:all", "the loop on records", wh)
        return
    inloop = {z for z in good_reach(reg, [n])}
    if head not in inloop:
        rep.bad("scan:all", "listing a record ends the loop", wh)
    else:
        starts = [z for z in reg.succ(head) if n in good_reach(reg, [z])]
        r = good_reach(reg, starts, stop=lambda z: z is n or z is head)
        # the end of the loop is not a turn
        rep.req(head not in {y for z in r if z is not n and z is not head for y in reg.succ(z)}, "scan:each", "a record can be passed over without being listed", wh)
    ends = end_of(f, at, P, root)
    if ends is None:
        rep.unk("scan:end", "when the listing ends", wh)
    else:
        rep.req(ends <= lay.data, "scan:end", "the listing ends though %s bytes can remain" % ("any number of" if ends > 1 << 40 else ends - 1), wh)


def end_of(f, at, P, root):
    """number of bytes c such that fewer than c remain after P when a map is returned; None when not known"""
    whole_ = whole_size(f, root)
    found, other = [], [False]

    def remains(pol, a):
        """c when the fact says that less than c bytes remain"""
        if a.op == "lt":
            d = sub(lin(f, a.a[0]), lin(f, a.a[1]))
            if not pol:
                d = {k: -x for k, x in d.items()}
            # pol: d < 0 ; not pol: d <= 0
            ks = {k for k in d if k is not None}
            if P not in ks:
                return None
            rest = ks - {P}
            if len(rest) == 1 and d[P] == -1:
                r = next(iter(rest))
                if d[r] == 1 and is_size(f, r, whole_, root):
                    # size - P + c0 (<|<=) 0
                    return -d.get(None, 0) + (0 if pol else 1)
            if len(rest) == 1 and d[P] == 1 and is_size(f, next(iter(rest)), whole_, root):
                return None
            other[0] = True
            return None
        if a.op == "eq":
            d = sub(lin(f, a.a[0]), lin(f, a.a[1]))
            ks = {k for k in d if k is not None}
            if P in ks and len(ks) == 2 and pol:
                r = next(iter(ks - {P}))
                if is_size(f, r, whole_, root) and d[r] * d[P] == -1:
                    c = d.get(None, 0) * d[r]
                    return 1 - c if c <= 0 else None
            return None
        if P in set(subterms(settle(f, a))) and a.op in ("call",):
            other[0] = True
        return None

    def pred_for(limit):
        def pred(k, y):
            if k != "fact":
                return False
            c = remains(*y)
            return c is not None and c <= limit
        return pred
    cs = sorted({c for n in f.order for fact in n.facts for c in [remains(*fact)] if c is not None})
    for c in cs:
        if at_ok(f, at, pred_for(c)):
            return c
    return None if other[0] or not cs else 1 << 60


def whole_size(f, root):
    out = {T("len", root)}
    x = root
    return out


def is_size(f, t, sizes, root):
    t = settle(f, t)
    if t in sizes:
        return True
    if t.op == "len":
        r = part(f, t.a[0])
        return r is not None and r[0] is root
    return t.op == "call" and t.a[0].split("::")[-1] == "len" and "Metadata" in t.a[0] or t.op == "call" and t.a[0].endswith("Mmap::len")


def cut_addresses(f, rep, keys):
    """places in the file kept in too few bits"""
    for n, ty, x in cut_casts(f, lambda t: t.op in ("phi", "len", "decode") or t.op == "bin" or t.op == "pay", 4):
        if x.op in ("phi", "bin") and any(z in keys for z in [x] + list(subterms(x))):
            rep.bad("scan:cut", "the place of a record (%s) is cut to %s" % (show(x, 4), ty), n.where)


def PRIM(t):
    return {"usize": "u64", "isize": "i64"}.get(t, t)


def names(w, rep, f, at, v, wh):
    """names and type reported are those of the description of the dump"""
    for role, getter_ in (("t_name", "get_data_typename"), ("distname", "get_distname")):
        fl = field_got(w, getter_)
        if fl is None:
            rep.unk("name:" + role, "what %s returns" % getter_)
            continue
        x = settle(f, agg_get(v, fl))
        while x.op in ("copy", "call") and (x.op == "copy" or x.a[0].split("::")[-1] in ("clone", "to_string", "to_owned", "into", "from")):
            x = settle(f, x.a[-1] if x.op == "call" else x.a[0])
        ds = [y for y in subterms(x) if y.op == "call" and y.a[0].endswith("load_description")]
        if role == "t_name" and x.op == "type_name":
            def same_type(k, y):
                return k == "fact" and y[0] and y[1].op == "eq" and any(z.op == "field" and z.a[1] == "t_name" for z in (settle(f, y[1].a[0]), settle(f, y[1].a[1]))) and \
                    any(settle(f, z).op == "type_name" for z in y[1].a)
            rep.tri(True if at_ok(f, at, same_type) else None, "name:t_name", "the type name is that of the type asked for", wh)
            continue
        good = x.op == "field" and x.a[1] == role and x.a[0].op == "pay" and len(ds) == 1
        rep.tri(True if good else None if opaque(x) and not ds else False, "name:" + role, "%s reports %s instead of the name in the description" % (getter_, show(x, 5)), wh,
                okmsg="the name in the description of the dump")


def field_got(w, name):
    f = w.flow(w.fn(name, impl_of="DataMap"))
    xs = {settle(f, v) for _, v in f.results()}
    if len(xs) != 1:
        return None
    x = xs.pop()
    while x.op in ("copy", "len", "keys"):
        x = x.a[0]
    return x.a[1] if x.op == "field" and x.a[0].op in ("param",) else None


def accessors(w, rep):
    """the number and the ids reported are those of the table"""
    w.dm_map = next(fn for fn, ty, vis in w.adt("DataMap").fields if "IndexMap" in w.prog.ts(ty) or "HashMap" in w.prog.ts(ty) or "BTreeMap" in w.prog.ts(ty))
    for name, op in (("get_nb_data", "len"), ("get_dataid_iter", "keys")):
        b = w.fn(name, impl_of="DataMap")
        f = w.flow(b)
        for p, x in f.results():
            x = settle(f, x)
            y = x
            while y.op in ("cast", "copy", "coll"):
                y = y.a[-1] if y.op == "cast" else y.a[0]
            good = y.op == op and self_map(w, y.a[0]) or op == "len" and y.op == "len" and y.a[0].op == "keys" and self_map(w, y.a[0].a[0])
            other = y.op == "call" and y.a[0].split("::")[-1] in ("capacity",)
            rep.tri(True if good else None if opaque(x) and not other else False, name, "%s returns %s" % (name, show(x, 5)), "%s:%d" % (b.file, b.line), okmsg=show(x, 4))
    b = w.fn("check_data_type", impl_of="DataMap")
    f = w.flow(b)
    tn = field_got(w, "get_data_typename")

    def eqf(want):
        def pred(k, y):
            if k != "fact" or y[1].op != "eq" or y[0] is not want:
                return False
            a = [settle(f, z) for z in y[1].a]
            return any(z.op == "type_name" for z in a) and any(z.op == "field" and z.a[1] == tn for z in a)
        return pred
    for p, x in f.results():
        x = settle(f, x)
        wh = "%s:%d" % (b.file, b.line)
        if x in (TRUE, FALSE):
            rep.tri(True if p is not None and f.holds_at(p, eqf(x is TRUE), 0) else None if any(opaque(a) for _, a in (f.facts_at(p) if p is not None else [])) else False,
                    "check_data_type", "%s whether or not the type is that of the map" % ("true" if x is TRUE else "false"), wh)
        elif x.op == "eq":
            a = [settle(f, z) for z in x.a]
            rep.tri(True if any(z.op == "type_name" for z in a) and any(z.op == "field" and z.a[1] == tn for z in a) else None, "check_data_type", show(x, 5), wh)
        else:
            rep.unk("check_data_type", show(x, 5), wh)


def self_map(w, t):
    while t.op in ("copy", "coll"):
        t = t.a[0]
    return t.op == "field" and t.a[1] == w.dm_map and t.a[0].op == "param"


def getter_parts(w):
    """[(node, address, offset of the length, offset of the vector)] of get_data"""
    f = w.flow(w.fn("get_data", impl_of="DataMap"))
    out = []
    for p, x in f.results():
        x = settle(f, x)
        if x.op == "agg" and x.a[0] in NOKV:
            continue
        v = settle(f, pay(x)) if x.op == "agg" else x
        ys = [y for y in subterms(v) if y.op == "rawslice"]
        if len(ys) != 1:
            out.append((p, None))
            continue
        ptr_ = settle(f, ys[0].a[0])
        while ptr_.op == "ptrcast":
            ptr_ = settle(f, ptr_.a[1])
        src = part(f, ptr_.a[0]) if ptr_.op == "ptr" else None
        if src is None or src[1] is None:
            out.append((p, None))
            continue
        root, s, e = src
        d = sub(e, s)
        ks = [k for k in d if k is not None and field_at(f, k) is not None and d[k] == 1]
        fl = field_at(f, ks[0]) if len(ks) == 1 else None
        if fl is None:
            out.append((p, None))
            continue
        more = {k: v for k, v in d.items() if k is not None and k is not ks[0]}
        if more:
            out.append((p, (s, fl[2], fl[0], fl[1] is root, root, lshow(more) if all(v < 0 for v in more.values()) else None)))
            continue
        out.append((p, (s, fl[2], fl[0], fl[1] is root, root, sub(e, s).get(None, 0))))
    return f, out


def getter_offsets(w):
    f, ps = getter_parts(w)
    if len(ps) != 1 or ps[0][1] is None:
        return None
    s, l, _, _, _, _ = ps[0][1]
    a = [k for k in s if k is not None]
    if len(a) != 1 or set(l) - {None} != set(a) or s[a[0]] != 1:
        return None
    return l.get(None, 0), s.get(None, 0)


def getter(w, rep):
    b = w.fn("get_data", impl_of="DataMap")
    wh = "%s:%d" % (b.file, b.line)
    accessors_map = w.dm_map = next(fn for fn, ty, vis in w.adt("DataMap").fields if "IndexMap" in w.prog.ts(ty) or "HashMap" in w.prog.ts(ty) or "BTreeMap" in w.prog.ts(ty))
    f, ps = getter_parts(w)
    for p, q in ps:
        if q is None:
            rep.unk("get:slice", "the vector returned", wh)
            continue
        s, l, kind, same_root, root, extra = q
        a = [k for k in s if k is not None]
        rep.tri(same_root or None, "get:length", "the length is read elsewhere", wh)
        if len(a) != 1:
            rep.unk("get:address", "the vector is at %s" % lshow(s), wh)
            continue
        k = a[0]
        while k.op == "copy":
            k = k.a[0]
        good = k.op == "pay" and k.a[0].op == "mapget" and self_map(w, k.a[0].a[0]) and idkey(k.a[0].a[1]) or \
            k.op == "index" and self_map(w, k.a[0]) and idkey(k.a[1])
        by_rank = any(x.op == "call" and x.a[0].split("::")[-1] in ("get_index", "get_index_entry") or x.op == "get" and self_map(w, x.a[0]) for x in subterms(k))
        bad = not good and (by_rank or k.op == "pay" and k.a[0].op == "mapget" or not opaque(k))
        rep.tri(True if good else False if bad else None, "get:address", "the vector returned is at %s, not at the address kept for the id" % show(k, 6), wh, okmsg="address kept for the id")
        rep.tri(None if extra is None else extra == 0, "get:whole", "the vector returned has %s bytes more than its record" % extra, wh)
    # nothing is returned only for an id not listed, or bytes that cannot be viewed as elements
    for p, x in f.results():
        x = settle(f, x)
        if not (x.op == "agg" and x.a[0] in NOKV):
            continue

        def why(k, y):
            if k != "fact":
                return False
            pol, a = y
            a = settle(f, a)
            if a.op == "isok" and not pol and a.a[0].op == "mapget" and self_map(w, a.a[0].a[0]):
                return idkey(a.a[0].a[1])
            if a.op == "contains" and not pol and any(self_map(w, z) for z in a.a):
                return True
            if not pol and a.op == "eq":
                return any(is_align(z) or z.op == "size_of" for z in subterms(a))
            if not pol and a.op == "call" and a.a[0].endswith("is_aligned"):
                return True
            return False
        fs = on_the_way(f, p, why) if p is not None else []
        ok = p is not None and f.holds_at(p, why, 0)
        rep.tri(True if ok else None if not fs or any(murky(settle(f, a)) for _, a in fs) else False, "get:none", "nothing is returned for an id that is listed", wh,
                okmsg="only for an id not listed or bytes which are not elements")


def on_the_way(f, p, pred):
    """facts met on the paths to p which avoid those wanted"""
    fwd = f.reach([f.entry], lambda n: any(pred("fact", x) for x in n.facts))
    back = f.reach([p], lambda n: n not in fwd, back=True)
    return [x for n in fwd & back for x in n.facts if not pred("fact", x)]


def murky(t):
    """a condition not understood"""
    return any(x.op in ("phi", "other", "undef", "unk", "?", "cparam", "init", "entryval") or
               x.op == "call" and x.a[0].split("::")[-1] not in ("align_of", "align_offset", "as_slice", "deref") for x in subterms(t))


def idkey(t):
    while t.op in ("copy", "ref", "cast"):
        t = t.a[-1] if t.op == "cast" else t.a[0]
    return t.op == "param"


# ---------------------------------------------------------------- C28
TURNS = T("turns")


def stores_of(f):
    """[(node, fields of self set, value)] for a function changing its first parameter"""
    out = []
    for n in f.order:
        for st in n.stores or ():
            pl, v = st[0], st[1]
            if pl.op == "field" and pl.a[0] is P1 or pl is P1:
                out.append((n, pl, v))
    return out


P1 = T("param", 1)


@check("C28")
def c28(w, rep):
    """which points are mapped"""
    roles = options(w, rep)
    kept(w, rep, roles)
    if roles is None:
        return
    for b in readers(w):
        decision(w, rep, b, roles)


def options(w, rep):
    b = w.fn("use_mmap", impl_of="ReloadOptions")
    f = w.flow(b)
    wh = "%s:%d" % (b.file, b.line)
    rs = [settle(f, x) for _, x in f.results()]
    names_ = {fn for fn, _, _ in w.adt("ReloadOptions").fields}
    tys = {fn: w.prog.ts(ty) for fn, ty, _ in w.adt("ReloadOptions").fields}
    if len(rs) != 1 or rs[0].op != "agg" or len(rs[0].a) < 4:
        rep.unk("use_mmap", "use_mmap returns %s" % show(rs[0], 5) if rs else "use_mmap", wh)
        return None
    dms, ths = [k for k, t in tys.items() if t == "bool"], [k for k, t in tys.items() if t == "usize"]
    if len(dms) != 1 or len(ths) != 1:
        rep.unk("use_mmap", "the fields of ReloadOptions", wh)
        return None
    dm, th = dms[0], ths[0]
    x, y = settle(f, agg_get(rs[0], "0")), settle(f, agg_get(rs[0], "1"))
    rep.tri(True if y is T("field", P1, th) else None if opaque(y) else False, "use_mmap:threshold", "use_mmap reports %s as threshold" % show(y, 5), wh, okmsg=th)

    def is_on(pol):
        return lambda k, z: k == "fact" and z[0] is pol and settle(f, z[1]) is T("field", P1, dm)
    for p, v in f.alts_at(x):
        v = settle(f, v)
        if v is T("field", P1, dm):
            ok = True
        elif v in (TRUE, FALSE) and p is not None:
            ok = f.holds_at(p, is_on(v is TRUE), 0)
        else:
            ok = None if opaque(v) else False
        rep.tri(ok, "use_mmap:on", "use_mmap reports %s as mapping" % show(v, 5), wh, okmsg=dm)

    def made(name, trait, want_dm, key):
        b = w.fn(name, impl_of="ReloadOptions", trait=trait) if trait else w.fn(name, impl_of="ReloadOptions")
        f = w.flow(b)
        for _, x in f.results():
            x = settle(f, x)
            wh = "%s:%d" % (b.file, b.line)
            d, t = (agg_get(x, dm), agg_get(x, th)) if x.op == "agg" else (None, None)
            if d is None or t is None:
                rep.unk(key, "returns %s" % show(x, 5), wh)
                continue
            rep.tri(True if d is want_dm else None if opaque(d) else False, key, "%s options have mapping %s" % (key, show(d, 4)), wh, okmsg="mapping " + show(d, 3))
            rep.tri(True if t is I(0) else None if opaque(t) else False, key + ":threshold", "%s options have threshold %s: so many points are not mapped" % (key, show(t, 4)), wh)
    made("default", "Default", FALSE, "default")
    made("new", None, P1, "new")
    setter(w, rep, "set_mmap", dm, th, {dm: T("param", 2)}, False)
    setter(w, rep, "set_mmap_threshold", dm, th, {dm: TRUE, th: T("param", 2)}, True)
    return dm, th


def setter(w, rep, name, dm, th, want, positive):
    b = w.fn(name, impl_of="ReloadOptions")
    f = w.flow(b)
    wh = "%s:%d" % (b.file, b.line)
    p2 = T("param", 2)

    def pos(k, y):
        if k != "fact":
            return False
        pol, a = y
        if a.op == "lt":
            return pol and settle(f, a.a[0]) is I(0) and settle(f, a.a[1]) is p2 or not pol and settle(f, a.a[0]) is p2 and settle(f, a.a[1]) is I(1)
        return a.op == "eq" and not pol and {settle(f, z) for z in a.a} == {I(0), p2}

    def zero(k, y):
        return k == "fact" and pos("fact", (not y[0], y[1]))
    per = {dm: [], th: []}
    for n, pl, v in stores_of(f):
        if pl is P1:
            v = settle(f, v)
            if v.op != "agg" and v.op != "with":
                rep.unk(name, "sets all options to %s" % show(v, 5), n.where)
                return
            for k in per:
                x = agg_get(v, k) if v.op == "agg" else None
                per[k].append((n, x))
        elif pl.a[1] in per:
            per[pl.a[1]].append((n, settle(f, v)))
    for k, ss in per.items():
        key = "%s:%s" % (name, k)
        if k not in want:
            for n, v in ss:
                rep.tri(True if v is T("field", P1, k) else None if v is None or opaque(v) else False, key, "%s changes %s to %s" % (name, k, v and show(v, 4)), n.where)
            if not ss:
                rep.ok(key, wh, "not changed")
            continue
        if not ss:
            rep.bad(key, "%s does not set %s" % (name, k), wh)
            continue
        ns = [n for n, _ in ss]
        for n, v in ss:
            alts_ = [(p, settle(f, x)) for p, x in f.alts_at(v)] if v is not None else [(None, None)]
            for p, x in alts_:
                if x is want[k]:
                    at = p or n
                    if positive and k == dm:
                        rep.tri(True if f.holds_at(at, pos, 0) else None if f.facts_at(at) else False, key, "a threshold of 0 turns mapping on", n.where)
                    else:
                        rep.ok(key, n.where, show(x, 3))
                elif x is T("field", P1, k) and p is not None and positive:
                    rep.tri(True if f.holds_at(p, zero, 0) else None, key, "%s is unchanged by a positive threshold" % k, n.where)
                else:
                    rep.tri(None if x is None or opaque(x) or x.op in ("boolopt", "or", "not", "lt", "eq") else False, key, "%s sets %s to %s" % (name, k, x and show(x, 4)), n.where)

        def done(kk, y):
            return kk == "node" and any(y is n for n in ns) or positive and zero(kk, y)
        rep.tri(True if f.holds(f.exit, done) else False if all(not opaque(settle(f, a)) for n in f.order for _, a in n.facts) else None, key + ":always",
                "%s does not always set %s" % (name, k), wh)
    for _, x in f.results():
        x = settle(f, x)
        if x.op == "agg" and agg_get(x, dm) is not None:
            rep.unk(name + ":result", "returns %s" % show(x, 4), wh)
        else:
            rep.tri(True if x is P1 else None, name + ":result", "returns %s" % show(x, 4), wh)


def kept(w, rep, roles):
    """options are kept as given"""
    of = next(fn for fn, ty, _ in w.adt("HnswIo").fields if "ReloadOptions" in w.prog.ts(ty))
    mp = next((fn for fn, ty, _ in w.adt("HnswIo").fields if "DataMap" in w.prog.ts(ty)), None)
    w.io_opt, w.io_map = of, mp
    for name in ("new", "new_with_options"):
        b = w.fn(name, impl_of="HnswIo")
        f = w.flow(b)
        wh = "%s:%d" % (b.file, b.line)
        pars = [i for i in range(1, b.argc + 1) if "ReloadOptions" in w.prog.ts(b.locals[i] if not isinstance(b.locals[i], (list, tuple)) else b.locals[i][0])]
        for _, x in f.results():
            x = settle(f, x)
            o = agg_get(x, of) if x.op == "agg" else None
            if o is None:
                rep.unk("HnswIo::" + name, "returns %s" % show(x, 4), wh)
                continue
            if pars:
                rep.tri(True if o is T("param", pars[0]) else None if opaque(o) else False, "HnswIo::" + name, "the options kept are %s, not those given" % show(o, 4), wh)
            else:
                d = agg_get(o, roles[0]) if roles and o.op == "agg" else None
                rep.tri(True if d is FALSE else None if d is None or opaque(d) else False, "HnswIo::" + name, "without options given, mapping is %s" % show(o, 4), wh)
    for name in ("set_options", "set_values"):
        b = w.fn(name, impl_of="HnswIo")
        f = w.flow(b)
        wh = "%s:%d" % (b.file, b.line)
        pars = [i for i in range(1, b.argc + 1) if "ReloadOptions" in w.prog.ts(b.locals[i] if not isinstance(b.locals[i], (list, tuple)) else b.locals[i][0])]
        ns = []
        for n, pl, v in stores_of(f):
            if pl.op == "field" and pl.a[1] == of:
                v = settle(f, v)
                ns.append(n)
                rep.tri(True if v is T("param", pars[0]) else None if opaque(v) else False, "HnswIo::" + name, "the options kept are %s, not those given" % show(v, 4), n.where)
            elif pl is P1:
                v = settle(f, v)
                o = agg_get(v, of) if v.op == "agg" else None
                ns.append(n)
                rep.tri(True if o is T("param", pars[0]) else None, "HnswIo::" + name, "the options kept are %s" % (o and show(o, 4)), n.where)
        oks = ok_results(f)
        ends = [at for at, _ in oks] if oks else []

        def done(k, y):
            return k == "node" and any(y is n for n in ns)
        if not ns:
            rep.bad("HnswIo::" + name, "the options given are not kept", wh)
        elif ends:
            rep.req(all(at_ok(f, at, done) for at in ends), "HnswIo::" + name + ":always", "succeeds without keeping the options given", wh)
        else:
            rep.req(f.holds(f.exit, done), "HnswIo::" + name + ":always", "does not always keep the options given", wh)


UNEVEN = {}


def counter(f, ph):
    """(value before the loops, step of each turn) of a number changed by the same step at each turn"""
    UNEVEN.pop(ph, None)
    group, todo, base, steps = {ph}, [ph], [], set()
    while todo:
        q = todo.pop()
        if q not in f.phi_in:
            return None
        head = node_by_id(f, q.a[0]) if isinstance(q.a[0], int) else None
        inc = list(f.phi_in[q])
        if head is None or len(inc) < len(head.pred):
            # unchanged by some turn
            return None
        for p, v in inc:
            d = lin(f, v)
            qs = [k for k in d if k is not None and k.op == "phi"]
            if not qs:
                base.append(d)
                continue
            st = [k for k in qs if len(qs) == 2 and not set(d) - {None, *qs} and f.phi_in.get(k) and all(v2.op == "int" for _, v2 in f.phi_in[k])]
            if len(st) == 1 and len({v2.a[0] for _, v2 in f.phi_in[st[0]]}) > 1:
                UNEVEN[ph] = sorted({d.get(None, 0) + d[st[0]] * v2.a[0] for _, v2 in f.phi_in[st[0]]})
            if len(qs) != 1 or d[qs[0]] != 1 or set(d) - {None, qs[0]}:
                return None
            c = d.get(None, 0)
            if c:
                steps.add(c)
            elif qs[0] is q:
                return None
            if qs[0] not in group:
                group.add(qs[0])
                todo.append(qs[0])
    if len(steps) > 1:
        UNEVEN[ph] = sorted(steps)
    if len(steps) != 1 or not base or any(x != base[0] for x in base):
        return None
    return base[0], steps.pop()


def counter_base(memo, k):
    return [z for z in memo[k][0] if z is not None] if memo.get(k) else []


def unrolled(f, t, memo):
    """linear form, numbers counting turns replaced by their value at first and the turns"""
    out = {}
    for k, v in lin(f, t).items():
        if k is not None and k.op == "phi":
            if k not in memo:
                memo[k] = counter(f, k)
            if memo[k] is not None:
                for j, z in memo[k][0].items():
                    out[j] = out.get(j, 0) + v * z
                out[TURNS] = out.get(TURNS, 0) + v * memo[k][1]
                continue
        out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def decision(w, rep, b, roles):
    dm, th = roles
    wh = "%s:%d" % (b.file, b.line)
    stops = [w.fn("get_data", impl_of="DataMap").id, w.fn("from_hnswdump", impl_of="DataMap").id]
    f = w.flow(b, stop=stops, key="c28")
    memo = {}
    opt = T("field", P1, w.io_opt)
    DM, TH = T("field", opt, dm), T("field", opt, th)

    NS = {x for vs in f.phi_in.values() for _, v in vs for x in subterms(v) if x.op == "field" and x.a[1] == "nb_point"}
    NS |= {x for n in f.order for _, a in n.facts for x in subterms(a) if x.op == "field" and x.a[1] == "nb_point"}
    NS |= {settle(f, x) for x in NS}

    def is_n(k):
        return k in NS

    def is_dm(a):
        return settle(f, a) is DM

    def form(pol, a):
        """e such that the fact says e <= 0, in terms of the threshold, the number of points and the turns"""
        if a.op != "lt":
            return None
        d = sub(unrolled(f, a.a[0], memo), unrolled(f, a.a[1], memo))
        if pol:
            d = dict(d)
            d[None] = d.get(None, 0) + 1
        else:
            d = {k: -v for k, v in d.items()}
        d = {("N" if is_n(k) else "t" if k is TH else "k" if k is TURNS else k): v for k, v in d.items() if v}
        return d
    MORE = {"t": 1, "N": -1, "k": 1, None: 1}
    LESS = {"N": 1, "k": -1, "t": -1}

    def more(k, y):
        return k == "fact" and form(*y) == MORE

    def on(k, y):
        return k == "fact" and y[0] and is_dm(y[1])

    def not_mapped(k, y):
        if k != "fact":
            return False
        pol, a = y
        if not pol and is_dm(a) or form(pol, a) == LESS:
            return True
        return a.op == "isok" and not pol and (got(a.a[0]) or got(settle(f, a.a[0])))

    def got(x):
        return x.op == "call" and x.a[0].endswith("get_data")

    # conditions on the threshold that are not understood
    strange = []
    for n in f.order:
        for pol, a in n.facts:
            x = settle(f, a)
            if a.op == "lt":
                e = form(pol, a)
                if "t" in e and any(k.op != "decode" for k in set(e) - {"t", "N", "k", None}):
                    strange.append(a)
                    for k in set(e) - {"t", "N", "k", None}:
                        if k in UNEVEN and len(e) <= 3 and memo.get(k, 0) is None:
                            rep.bad(b.name + ":count", "the number of points which remain to load, compared to the threshold, changes by %s and not by one at each point" % (
                                " or ".join(str(z) for z in UNEVEN[k])), n.where)
            elif any(z is TH for z in subterms(x)):
                strange.append(a)
        if n.call is not None and any(z is TH for a in n.call.args for z in subterms(settle(f, a))) and \
                not any(n.call.name.endswith(s) for s in ("load_point", "use_mmap", "lt", "le", "gt", "ge", "cmp", "eq", "ne")):
            if "fmt" not in n.call.name:
                strange.append(n.call.name)
    for n, ty, x in cut_casts(f, lambda z: settle(f, z) is TH or is_n(z) or z.op == "phi" and any(is_n(q) for q in counter_base(memo, z)), 4):
        rep.bad(b.name + ":cut", "the number of points compared to decide which are mapped is cut to %s: %s" % (ty, show(x, 4)), n.where)
    mapped = loaded = 0
    for n in f.order:
        for x in n.aggs or ():
            if x.op != "agg" or x.a[0] != w.point.path.split("::")[-1]:
                continue
            data, oid = agg_get(x, w.pf["data"]), agg_get(x, w.pf["id"])
            if data is None:
                continue
            for p, v in data_values(w, f, data):
                at = p or n
                v = settle(f, v)
                gets = [y for y in subterms(v) if got(y)]
                key = b.name
                if gets:
                    mapped += 1
                    verdict_ = lambda ok: True if ok else None if strange else False
                    rep.tri(verdict_(f.holds_at(at, on, 0)), key + ":on", "a point can be mapped though mapping is not asked for", at.where)
                    rep.tri(verdict_(f.holds_at(at, more, 0)), key + ":more", "a point can be mapped though no more points than the threshold remain to load", at.where)
                    for y in gets:
                        i = settle(f, y.a[-1])
                        o = settle(f, oid)
                        while i.op == "cast":
                            i = settle(f, i.a[1])
                        while o.op == "cast":
                            o = settle(f, o.a[1])
                        rep.tri(True if i is o else False if i.op == "decode" and o.op == "decode" or not opaque(i) else None, key + ":id", "the vector mapped is that of id %s for the point of id %s" % (show(i, 4), show(o, 4)), at.where)
                        the_map(w, rep, f, b, key, y, at)
                else:
                    if not any(z.op in ("readbytes", "call", "rawslice", "phi", "new") for z in subterms(v)):
                        continue
                    loaded += 1
                    rep.tri(True if f.holds_at(at, not_mapped, 0) else None if strange else False, key + ":loaded",
                            "a point can be loaded in memory though mapping is asked for and more points than the threshold remain to load", at.where)
    rep.count("ways of making a mapped point in %s" % b.name, mapped, 0)
    rep.count("ways of making a loaded point in %s" % b.name, loaded, 1)
    if mapped == 0:
        (rep.bad if not any(n.call is not None and n.call.name.endswith("get_data") for n in f.order) else rep.unk)(b.name + ":never", "no point is mapped whatever the options", wh)


def the_map(w, rep, f, b, key, y, at):
    """the map is that of the dump being reloaded"""
    ms = [z for z in subterms(settle(f, y.a[2])) if z.op == "call" and z.a[0].endswith("from_hnswdump")]
    own_ = any(z.op == "field" and z.a[0] is P1 and z.a[1] == w.io_map for z in subterms(settle(f, y.a[2])))
    alts_ = []
    for z in subterms(y.a[2]):
        if z.op == "phi" and z in f.phi_in:
            for v in f.alts(z):
                s = settle(f, v)
                alts_.append(s)
                ms += [q for q in subterms(s) if q.op == "call" and q.a[0].endswith("from_hnswdump")]
    opened = [n for n in f.order if n.call is not None and n.call.name.endswith("from_hnswdump")]
    for n in opened:
        for i, ty in ((0, "PathBuf"), (1, "String")):
            x = settle(f, n.call.args[i])
            while x.op in ("copy", "ref"):
                x = x.a[0]
            good = x.op == "field" and x.a[0] is P1 and any(fn == x.a[1] and ty in w.prog.ts(t) for fn, t, _ in w.adt("HnswIo").fields)
            rep.tri(True if good else None if opaque(x) else False, key + ":map:%d" % i, "the map opened is of %s, not of the dump being reloaded" % show(x, 4), n.where)
    if not opened:
        # the map of an earlier reload by the same HnswIo
        rep.note("%s uses the map opened by an earlier load_hnsw, and fails when there is none" % b.name)
        renewed(w, rep, key, at)
        return

    def done(k, z):
        return k == "fact" and z[0] and z[1].op == "isok" and any(q.op == "call" and q.a[0].endswith("from_hnswdump") for q in subterms(settle(f, z[1]))) or \
            k == "node" and any(z is n for n in opened)
    if f.holds_at(at, done, 0):
        rep.ok(key + ":fresh", at.where, "opened by this reload")
    else:
        renewed(w, rep, key, at)


def renewed(w, rep, key, at):
    """the map kept is forgotten when the files to load change"""
    b = w.fn("set_values", impl_of="HnswIo")
    f = w.flow(b)
    files = {fn for fn, t, _ in w.adt("HnswIo").fields if "PathBuf" in w.prog.ts(t) or "String" in w.prog.ts(t)}
    ss = stores_of(f)
    chg = [n for n, pl, v in ss if pl.op == "field" and pl.a[1] in files]
    forgot = [n for n, pl, v in ss if pl.op == "field" and pl.a[1] == w.io_map and settle(f, v).op == "agg" and settle(f, v).a[0] in NOKV]
    ok = not chg or bool(forgot) and all(f.must_reach(n, lambda z: any(z is y for y in forgot)) or any(f.dominates(y, n) for y in forgot) for n in chg)
    rep.req(ok, key + ":fresh", "the map of files loaded before is used for the files set by set_values", at.where)
