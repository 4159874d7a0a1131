"""C06: queries and inspection never get mutable access to index state."""
from . import check
from .common import *
from .locks import is_acquire, lock_types, inner_type

STATE = ("layers", "entry", "count", "links")
RAW = ("RwLock::data_ptr", "RwLock::force_unlock_write", "RwLock::force_unlock_read", "RwLock::make_write_guard_unchecked", "ptr::write",
       "Arc::get_mut_unchecked", "Arc::as_ptr", "Mutex::data_ptr", "ptr::copy_nonoverlapping", "ptr::copy", "ptr::replace", "ptr::swap",
       "mem::transmute", "intrinsics::transmute", "UnsafeCell::get", "UnsafeCell::raw_get")


def query_roots(w):
    pr = w.prog
    out = []
    for b in pr.bodies.values():
        if b.kind == "Closure" or b.argc == 0:
            continue
        t = pr.ty(b.locals[1])
        owner = pr.adt_of(b.impl_self).split("::")[-1] if b.impl_self is not None and pr.adt_of(b.impl_self) else None
        tr = (b.impl_trait or "").split("::")[-1]
        if owner in ("Hnsw", "PointIndexation", "Point", "IterPoint", "IterPointLayer", "FlatNeighborhood"):
            if tr == "Drop":
                continue
            if owner.startswith("Iter") or tr in ("From", "IntoIterator"):
                out.append(b)
                continue
            if tr in ("AnnT",) and b.name in ("search_neighbours", "parallel_search_neighbours", "file_dump"):
                out.append(b)
                continue
            if tr in ("HnswIoT",):
                out.append(b)
                continue
            if tr:
                continue
            if t["k"] == "ref" and not t.get("mut") and b.exported and pr.adt_of(b.locals[1]) and \
                    pr.adt_of(b.locals[1]).split("::")[-1] == owner and "insert" not in b.name:
                out.append(b)
    return out


@check("C06")
def c06(w, rep):
    pr = w.prog
    cls = lock_types(w)
    roots = query_roots(w)
    must = ["search", "search_filter", "parallel_search", "file_dump", "get_point_data", "get_nb_point", "get_neighborhood_id"]
    have = {b.name for b in roots}
    for m in must:
        if m not in have:
            raise Missing("query operation " + m)
    nacq = 0
    for b in roots:
        f = w.flow(b)
        bad = False
        wg = set()
        for n in f.order:
            if is_acquire(n):
                nacq += 1
                c = cls.get(inner_type(pr, n.call.argtys[0]))
                if n.call.dest.op == "guard" and n.call.dest.a[1] == "w" and c in STATE:
                    wg.add(n.call.dest)
            if n.call is not None and n.call.name in RAW and n.call.name != "Arc::as_ptr":
                bad = True
                rep.bad("raw:%s:%s" % (b.spath, n.call.name), "query operation %s reaches `%s`, which gives mutable access around the locks"
                        % (b.spath, n.call.name), n.where)
        for n in f.order:
            if n.call is None:
                continue
            if n.call.name in ("DerefMut::deref_mut", "IndexMut::index_mut", "Option::as_mut", "AsMut::as_mut") and any(a in wg for a in n.call.args):
                bad = True
                g = [a for a in n.call.args if a in wg][0]
                c = w.lock_class(g.a[0])
                rep.bad("write:%s:%s" % (b.spath, c), "query operation %s modifies index state `%s` under a write lock" % (b.spath, c), n.where)
        if not bad:
            rep.ok("readonly:" + b.spath, "%s:%d" % (b.file, b.line), "%d nodes analysed" % len(f.order))
    rep.count("query roots", len(roots), 25)
    rep.count("lock acquisitions in query roots", nacq, 20)
    # interior mutability enumerated from the types
    for a in (w.hnsw, w.pi, w.point, w.pwo):
        for nm, ti, _ in a.fields:
            s = pr.ts(ti)
            for k in ("Cell<", "Atomic", "UnsafeCell", "*mut", "OnceLock"):
                if k in s:
                    rep.note("field %s.%s: %s has interior mutability outside the locks" % (a.path, nm, s))
