"""C24, C25: errors of the writing functions, names of the files written."""
from . import check
from .common import *
from .norm import *
from .wire import *
from .persist import *
from .insert import uncast
from .misc import strip, getfield, self_field, P


# ------------------------------------------------------------------ where an error goes
def phis_at(f):
    """node -> [(phi, {pred: value})]"""
    m = getattr(f, "_phis_at", None)
    if m is None:
        m = f._phis_at = {}
        for ph, ins in f.phi_in.items():
            n = node_by_id(f, ph.a[0])
            if n is not None:
                m.setdefault(n, []).append((ph, dict((p, v) for p, v in ins if p is not None)))
    return m


def is_err(v, known):
    if v in known:
        return True
    if v.op == "agg" and v.a[0] == "Result::Err":
        return True
    if v.op == "optmap" and v.a[2] in ("map_err", "and_then", "map") and is_err(v.a[0], known):
        return True
    if v.op == "optmap" and v.a[2] == "and_then" and is_err(v.a[3] if len(v.a) > 3 else v.a[1].a[0] if v.a[1].op == "pay" else v.a[1], known):
        return True
    return False


def fate(f, start, seed):
    """what happens after the call at start fails with result seed: set of ('ok'|'err'|'panic'|'?', node)"""
    out, seen = set(), set()
    ph = phis_at(f)
    st = [(start, frozenset([seed]))]
    res = f.result()
    while st:
        n, known = st.pop()
        if (n, known) in seen:
            continue
        seen.add((n, known))
        if len(seen) > 60000:
            return {("?", n)}
        dead = False
        for pol, a in n.facts:
            if a.op == "isok" and pol and is_err(a.a[0], known):
                dead = True
            if a.op == "is" and is_err(a.a[0], known) and pol and str(a.a[1]) in ("Ok", "Result::Ok"):
                dead = True
        if dead:
            continue
        if n.call is not None and mname(n) in ("unwrap", "expect") and n.call.args and is_err(n.call.args[0], known):
            out.add(("panic", n))
            continue
        if n in f.diverges:
            out.add(("panic", n))
            continue
        if n is f.exit:
            r = res
            out.add(("err" if r is not None and is_err(r, known) else "ok", n))
            continue
        for s in n.succ:
            k = known
            if s is start:
                k = k - {seed}
            for p, ins in ph.get(s, ()):
                v = ins.get(n)
                if v is None:
                    k = k - {p}
                elif is_err(v, known):
                    k = k | {p}
                else:
                    k = k - {p}
            st.append((s, frozenset(k)))
        if not n.succ:
            out.add(("panic", n))
    return out


OPENS = ("OpenOptions::open", "File::create", "File::create_new", "File::options")
PARTIAL = ("write", "write_vectored", "write_fmt")


def failing_calls(f):
    """calls of the writing function that can fail on input or output: [(node, result, what)]"""
    out = []
    for n in f.order:
        if n.call is None or n.call.dest is None:
            continue
        ty, m = n.call.name.split("::")[-2:] if "::" in n.call.name else ("", n.call.name)
        d = n.call.dest
        if ty == "Write" and m in ("write_all", "flush", "write_fmt") or m in ("sync_all", "sync_data", "into_inner"):
            out.append((n, d, m))
        elif n.call.name in OPENS and "read" not in opened(d) or n.call.name.endswith("::create_dir_all"):
            out.append((n, d, m))
        elif m in ("serialize_into", "write_all_at"):
            out.append((n, d, m))
    return out


def opened(d):
    """options of an opening"""
    if d.op != "call" or len(d.a) < 4:
        return {"create": TRUE, "truncate": TRUE, "write": TRUE} if d.op == "call" and d.a[0].endswith("create") else {}
    o, t = {}, d.a[2]
    while t.op == "opt":
        o.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return o


def stored(f, n, d):
    """result term the call node stores, whatever wraps it"""
    return d


def second_buffers(rep, f, fl):
    """a buffer put in front of a file which already has one is flushed by the function which made it"""
    first = {}
    for n in f.order:
        if n.call is None or not n.call.args or n.call.name.split("::")[0] not in ("BufWriter", "LineWriter") or mname(n) not in ("new", "with_capacity"):
            continue
        k = stream_key(f, n.call.args[-1])
        if k is None:
            continue
        if first.setdefault(k, n) is n:
            continue

        def below(c, n=n):
            while c is not None and c is not n.ctx:
                c = c.parent
            return c is n.ctx
        rep.req(any(below(x.ctx) and x in f.reach([n]) for x in fl.get(k, ())), "flush:%s:second" % k[0],
                "a second buffer is put in front of the file and dropped without being flushed: its write errors are lost", n.where)


@check("C24")
def c24(w, rep):
    b = dump_fn(w)
    f = w.flow(b)
    fails = failing_calls(f)
    rep.count("calls that can fail while dumping", len(fails), 10)
    for n, d, m in fails:
        key = "%s:%s:%s" % (m, n.ctx.body.name, what_is(n))
        fs = fate(f, n, d)
        kinds = {k for k, _ in fs}
        bad = [x for k, x in fs if k == "panic"]
        if "ok" in kinds:
            rep.bad(key, "file_dump can return success after this call failed", n.where)
        elif "panic" in kinds:
            rep.bad(key, "a failure of this call panics instead of being returned", bad[0].where)
        elif "?" in kinds:
            rep.unk(key, "too many paths", n.where)
        else:
            rep.ok(key, n.where, "error returned")
    # partial writes
    for n in f.order:
        if n.call is not None and n.call.name.split("::")[-2:-1] == ["Write"] and mname(n) in ("write", "write_vectored"):
            rep.bad("partial:%s" % n.ctx.body.name, "writes a part of the bytes only", n.where)
    # flush
    try:
        ks = streams(f, "w")
    except Unclear as e:
        rep.unk("flush", str(e), "%s:%d" % (b.file, b.line))
        return
    rep.count("files written", len(ks), 2)
    oks = ok_results(f)
    if not oks:
        rep.unk("flush", "no success result", "%s:%d" % (b.file, b.line))
    fl = {}
    lost = False
    for n in f.order:
        if n.call is not None and mname(n) in ("flush", "into_inner", "sync_all"):
            k = stream_key(f, n.call.args[0])
            if k is None:
                lost = True
            fl.setdefault(k, set()).add(n)
    second_buffers(rep, f, fl)
    for k, ns in ks.items():
        buffered = any(y.op == "call" and y.a[0].startswith("BufWriter") for n in ns for y in subterms(settle(f, n.call.args[0]))) or \
            any(n.call.argtys and "BufWriter" in w.prog.ts(n.call.argtys[0]) for n in ns)
        mine = fl.get(k, set())
        wr = [n for n in ns]
        ok = all(at_ok(f, p, lambda kd, y: kd == "node" and y in mine, since=x) for x in wr for p, _ in oks)
        if ok and mine:
            rep.ok("flush:%s" % k[0], sorted(mine, key=lambda x: x.id)[0].where, "flushed after the last write of every successful dump")
        elif lost:
            rep.unk("flush:%s" % k[0], "file behind a flush", "")
        else:
            rep.bad("flush:%s" % k[0], "success is returned with bytes of the file still in a buffer whose write errors are lost", wr[-1].where)
    # the exported dumps
    c24_exported(w, rep, b)


def what_is(n):
    v = n.call.args[1] if len(n.call.args) > 1 else None
    return show(uncast(v.a[2]) if v is not None and v.op == "encode" else v, 3)[:40] if v is not None else ""


def c24_exported(w, rep, dump):
    n = 0
    for b in w.prog.bodies.values():
        if not b.no_mangle or "dump" not in b.name or "load" in b.name or b.name.startswith("get"):
            continue
        f = w.flow(b, stop=[dump.id])
        cs = [x for x in f.order if x.call is not None and mname(x) == "file_dump"]
        if not cs:
            continue
        n += 1
        for c in cs:
            vals = {}
            for p, t in f.results():
                t = uncast(t)
                good = p is not None and f.holds_at(p, lambda k, y: k == "fact" and y[0] and y[1].op == "isok" and y[1].a[0] is c.call.dest, 0)
                vals.setdefault(t, set()).add(bool(good))
            ok = vals.get(I(1)) == {True} and all(v == {False} for t, v in vals.items() if t is not I(1))
            known = all(t.op in ("int", "neg") for t in vals)
            rep.tri(True if ok else False if known else None, "exported:" + b.name, "reports a failed dump as done, or the contrary: %s" %
                    {show(t): sorted(v) for t, v in vals.items()}, c.where, okmsg="1 only if the dump succeeded")
    rep.count("exported dumps", n, 3)


# ------------------------------------------------------------------ names of the files
def file_name(f, path):
    """(directory, name, suffix) of a path joined from a directory and a name"""
    p = strip(settle(f, path))
    if p.op != "join" or len(p.a) < 2:
        return None
    d = p.a[0] if len(p.a) == 2 else T("join", *p.a[:-1])
    e = strip(p.a[-1])
    if e.op == "cat" and e.a[-1].op == "str":
        body = e.a[:-1]
        return d, strip(body[0] if len(body) == 1 else T("cat", *body)), str(e.a[-1].a[0])
    return None


def replaced_end(f, t):
    """a path whose extension is replaced although its last part is a name given, which can have a dot"""
    if t.op != "call" or t.a[0].split("::")[-1] != "with_extension":
        return False
    p = strip(settle(f, t.a[2] if not isinstance(t.a[1], Term) else t.a[1]))
    if p.op != "join":
        return False
    return any(x.op in ("param", "field") for _, x in leaves(f, settle(f, p.a[-1])))


def leaves(f, t, node=None, depth=0, came=()):
    """[(node where it is chosen, alternative of t)]"""
    return [(p, v) for p, v, _ in arrivals(f, t, node, depth, came)]


def arrivals(f, t, node=None, depth=0, came=()):
    """[(node where it is chosen, alternative of t, edges taken)]"""
    t = strip(t)
    if t.op == "phi" and depth < 8:
        out = []
        for p, v in f.alts_at(t):
            out += arrivals(f, v, p if p is not None else node, depth + 1, came + (((node_by_id(f, t.a[0]), p),) if p is not None else ()))
        return out
    return [(node, t, came)]


def flag_values(w, h):
    """bool field of the index -> constant it always has in what function h builds (None: unknown)"""
    f = w.flow(h)
    vals = {}
    for p, r in ok_results(f) if h.name != "new" else [(None, r) for _, r in f.results()]:
        v = settle(f, agg_get(r, "0") if h.name != "new" else r)
        for t in ([x for _, x in leaves(f, v)]):
            for g in bool_fields(w):
                x = settle(f, getfield(t, (g,)))
                vals.setdefault(g, set()).add(x)
    return vals


def bool_fields(w):
    return [x[0] for x in w.hnsw.fields if w.prog.ts(x[1]) == "bool"]


def set_elsewhere(w, fields):
    """field -> [(value, where)] stored into an index by any function"""
    out = {}
    for b in w.prog.bodies.values():
        if b.derived:
            continue
        f = w.flow(b)
        for n in f.order:
            for pl, v in n.stores:
                if pl.op == "field" and pl.a[1] in fields and n.ctx.body is b:
                    out.setdefault(pl.a[1], []).append((v, n.where))
    return out


def missing_file(w, f, node, name, suffix, dirs, use=None, came=()):
    """is the file of that name known to be absent when node is reached?"""
    rand = [s for s in subterms(name) if s.op == "call" and isinstance(s.a[1], int)]

    def same_file(p):
        x = file_name(f, p)
        return x is not None and x[1] is name and x[2] == suffix and x[0] in dirs

    def absent(k, y):
        if k != "fact":
            return False
        pol, a = y
        if a.op == "isok":
            a = a.a[0]
            if a.op == "call" and a.a[0].split("::")[-1] in ("metadata", "symlink_metadata", "open"):
                return not pol and same_file(a.a[-1])
        elif a.op == "call" and a.a[0].split("::")[-1] in ("exists", "is_file"):
            return not pol and same_file(a.a[-1])
        elif a.op == "pay" and a.a[0].op == "call" and a.a[0].a[0].split("::")[-1] in ("try_exists", "exists"):
            return not pol and same_file(a.a[0].a[-1])
        return False
    since = None
    for r in rand:
        n = node_by_id(f, r.a[1])
        if n is not None and (since is None or f.dominates(since, n)):
            since = n
    if f.holds_at(node, absent, 0, since):
        return True
    if use is not None:
        # flags chosen with the name, tested before its use
        at = phis_at(f)
        for pol, a in f.facts_at(use):
            for h, p in came:
                for ph, ins in at.get(h, ()):
                    if ph is a and ins.get(p) is not None:
                        pp, v = pol, ins[p]
                        while v.op == "not":
                            pp, v = not pp, v.a[0]
                        if absent("fact", (pp, v)):
                            return True
    return False


@check("C25")
def c25(w, rep):
    b = dump_fn(w)
    loads = readers(w)
    new = w.fn("new", impl_of="Hnsw")
    fields = bool_fields(w)
    lv = [flag_values(w, h) for h in loads]
    nv = flag_values(w, new)
    st = set_elsewhere(w, fields)
    try:
        c25_reload(w, rep, loads)
    except Unclear as e:
        rep.unk("read files", str(e))
    me = T("param", 1)
    for world in ("reloaded", "in memory"):
        assume = {}
        for g in fields:
            if world == "reloaded":
                vs = set().union(*(x.get(g, set()) for x in lv))
            else:
                vs = set(nv.get(g, set()))
            vs |= {v for v, _ in st.get(g, [])}
            if vs == {TRUE} or vs == {FALSE}:
                assume[T("field", me, g)] = vs == {TRUE}
        rep.note("%s index: %s" % (world, {show(k): v for k, v in assume.items()}))
        f = w.flow(b, assume=assume)
        opens = [n for n in f.order if n.call is not None and n.call.dest is not None and n.call.name in OPENS and "read" not in opened(n.call.dest)]
        opens = [n for n in opens if n.call.name != "File::options"]
        rep.count("files opened for writing (%s index)" % world, len(opens), 2)
        files = []
        for n in opens:
            x = file_name(f, n.call.args[-1])
            if x is None:
                y = strip(settle(f, n.call.args[-1]))
                if replaced_end(f, y):
                    rep.bad("path:%s" % world, "what follows the last dot of the name given is replaced: %s" % show(y, 6), n.where)
                else:
                    rep.unk("path:%s:%s" % (world, n.where.split()[0]), "path %s" % show(n.call.args[-1], 8), n.where)
            else:
                files.append((n,) + x)
        if len(files) != len(opens):
            continue
        dirs = {strip(x[1]) for x in files}
        rep.tri(True if dirs == {T("param", 2)} else False if all(d.op == "param" or d.op == "join" for d in dirs) else None, "directory:" + world,
                "files are written in %s" % [show(d, 6) for d in dirs], files[0][0].where, okmsg="both files in the given directory")
        names = {x[2] for x in files}
        rep.tri(True if len(names) == 1 else False if not any(opaque_name(x) for x in names) else None, "same name:" + world,
                "the two files do not share their name: %s" % [show(x, 6) for x in names], files[0][0].where, okmsg="one name for both files")
        # the name returned
        for p, v in ok_results(f):
            r = strip(settle(f, agg_get(v, "0")))
            rep.tri(True if {r} == names else False if not opaque_name(r) and not any(opaque_name(x) for x in names) else None, "returned:" + world,
                    "returns %s though the files are named %s" % (show(r, 6), [show(x, 6) for x in names]), p.where, okmsg="name of the files written")
        data = [x for x in files if x[3] == data_suffix(w)]
        if not data:
            rep.unk("data file:" + world, "no file %s" % data_suffix(w), "")
            continue
        for n, d, name, suf in files:
            o = {k: folded(v, assume) for k, v in opened(n.call.dest).items()}
            lit = all(v.op == "int" for v in o.values())
            if n.call.name.endswith("create_new"):
                o = {"create_new": TRUE, "write": TRUE}
            excl = o.get("create_new") is TRUE
            wr = o.get("write") is TRUE or o.get("append") is TRUE
            if world == "in memory":
                good = o.get("create") is TRUE and o.get("truncate") is TRUE and wr and not excl and o.get("append") is not TRUE
                rep.tri(True if good else False if lit else None, "overwrites:" + suf,
                        "an existing file is not replaced by an index built in memory (%s)" % {k: show(v) for k, v in o.items()}, n.where, okmsg="created or truncated")
                for q, v in leaves(f, name):
                    rep.tri(True if v is T("param", 3) else False if not opaque_name(v) else None, "name:in memory:%s:%s" % (suf, nosite_show(v)),
                            "an index built in memory is dumped as %s" % show(v, 6), n.where, okmsg="the name asked for")
                continue
            good = wr and (excl or o.get("truncate") is TRUE and o.get("create") is TRUE) and o.get("append") is not TRUE
            rep.tri(True if good else False if lit else None, "written:" + suf, "the file is not created or keeps previous bytes (%s)" % {k: show(v) for k, v in o.items()},
                    n.where, okmsg="created or truncated")
            if suf != data_suffix(w) or excl:
                continue
            for q, v, came in arrivals(f, name):
                at = q if q is not None else n
                ok = missing_file(w, f, at, v, suf, {d}, n, came) or (q is not None and missing_file(w, f, n, name, suf, {d}))
                key = "unused:%s" % nosite_show(v)
                if ok:
                    rep.ok(key, at.where, "no data file of that name existed")
                elif opaque_name(v) or unread_tests(f, at):
                    rep.unk(key, "name %s" % show(v, 6), at.where)
                else:
                    rep.bad(key, "a reloaded index can be dumped over an existing data file of name %s" % show(v, 6), at.where)


def folded(v, assume):
    """constant v is under the assumptions"""
    if v.op == "not":
        x = folded(v.a[0], assume)
        return FALSE if x is TRUE else TRUE if x is FALSE else v
    if v in assume:
        return TRUE if assume[v] else FALSE
    return v


def nosite_show(v):
    return show(nosite(v), 3)[:60]


def opaque_name(v):
    """cannot the name be read?"""
    return v.op not in ("param", "cat", "str", "phi", "field") and not (v.op == "call" and v.a[0].split("::")[-1] in ("gen_range",))


def unread_tests(f, n):
    """is a file tested in a way not understood on the paths to n?"""
    for _, a in f.facts_at(n):
        for s in subterms(a):
            if s.op == "call" and (s.a[0].startswith("fs::") or s.a[0].split("::")[-1] in ("exists", "try_exists", "is_file", "metadata")) and \
                    s.a[0].split("::")[-1] not in ("metadata",) or s.op in ("any", "all", "find", "position"):
                return True
    return False


def data_suffix(w):
    s = getattr(w, "_data_suffix", None)
    if s is None:
        d = Dump(w)
        k = d.data[0]
        s = w._data_suffix = k if k.startswith(".") else None
        if s is None:
            for n in d.f.order:
                if n.call is not None and n.call.name in OPENS:
                    x = file_name(d.f, n.call.args[-1])
                    if x is not None and k in x[2]:
                        s = w._data_suffix = x[2]
    return s


def c25_reload(w, rep, loads):
    """the reloader opens the files of the name it was given"""
    flows = [(b, w.flow(b), "HnswIo") for b in loads]
    m = w.fn("from_hnswdump", impl_of="DataMap")
    flows.append((m, w.flow(m), None))
    d = Dump(w)
    suffixes = set()
    for n in d.f.order:
        if n.call is not None and n.call.dest is not None and n.call.name in OPENS and "read" not in opened(n.call.dest):
            x = file_name(d.f, n.call.args[-1])
            suffixes.add(x[2] if x else None)
    if None in suffixes:
        return
    for b, f, own in flows:
        got, clear, dirs, names, at = set(), True, set(), set(), ""
        for n in f.order:
            if n.call is None or n.call.dest is None or mname(n) not in ("open",):
                continue
            x = file_name(f, n.call.args[-1])
            at = n.where
            if x is None:
                clear = False
                continue
            got.add(x[2])
            dirs.add(strip(x[0]))
            names.add(x[1])
        rep.tri(True if got == suffixes else None if not clear else False, "read files:" + b.name, "reads files %s while dumps are %s" % (sorted(got), sorted(suffixes)), at,
                okmsg="the files dumped")
        if own:
            ok = all(self_field(x) is not None for x in dirs | names) and len(dirs) == len(names) == 1
            rep.tri(True if ok else None if any(opaque_name(x) for x in dirs | names) else False, "read place:" + b.name,
                    "reads %s in %s" % ([show(x, 6) for x in names], [show(x, 6) for x in dirs]), at, okmsg="in the directory and under the name of the reloader")
            if not ok:
                continue
            fd, fn = self_field(next(iter(dirs))), self_field(next(iter(names)))
            for nm in ("new", "new_with_options", "set_values"):
                c = w.fn(nm, impl_of="HnswIo")
                cf = w.flow(c)
                i = 1 if nm == "set_values" else 0
                if i:
                    vals = [(x, pl, v) for x in cf.order for pl, v in x.stores if pl.op == "field" and pl.a[0] is P(1)]
                    for what, fl, want in (("directory", fd, P(2)), ("name", fn, P(3))):
                        vs = {strip(settle(cf, v)) for x, pl, v in vals if (pl.a[1],) == tuple(fl)}
                        rep.tri(True if vs == {want} else None if any(opaque_name(x) for x in vs) else False, "%s:%s" % (what, nm),
                                "the %s of the reloader is %s" % (what, [show(x, 5) for x in vs]), c.where if hasattr(c, "where") else "%s:%d" % (c.file, c.line), okmsg="as given")
                else:
                    for p, r in cf.results():
                        r = settle(cf, r)
                        for what, fl, want in (("directory", fd, P(1)), ("name", fn, P(2))):
                            v = getfield(r, fl)
                            v = strip(v) if v is not None else None
                            rep.tri(True if v is want else None if v is None or opaque_name(v) else False, "%s:%s" % (what, nm),
                                    "the %s of the reloader is %s" % (what, show(v, 5) if v is not None else "?"), "%s:%d" % (c.file, c.line), okmsg="as given")
        else:
            rep.tri(True if dirs == {P(1)} and names == {P(2)} else None if any(opaque_name(x) for x in dirs | names) else False, "read place:" + b.name,
                    "maps %s in %s" % ([show(x, 6) for x in names], [show(x, 6) for x in dirs]), at, okmsg="in the given directory under the given name")
