"""What std / dependency calls do to values (the trusted library model)."""
from .flow import (T, I, TRUE, FALSE, UNDEF, UNIT, MOVED, NONE, agg, agg_get, some, cat, binop, eq, lt, fneg, neg, isok,
                   isv, pay, length, elem, COLL_TYPES, PRIM_SIZE, Term, Call)
from .mir import short

IDENT = {
    "AsRef::as_ref", "Option::as_ref", "Option::as_deref", "Result::as_ref", "Borrow::borrow",
    "Vec::as_slice", "String::as_str", "String::as_bytes", "str::as_bytes", "PathBuf::as_path", "Path::as_os_str",
    "Path::to_path_buf", "Path::new", "Box::new", "Arc::new", "Rc::new", "Arc::clone",
    "IntoIterator::into_iter", "slice::iter", "slice::iter_mut", "Vec::iter",
    "HashMap::iter", "HashMap::iter_mut", "BinaryHeap::iter", "IndexMap::iter", "BTreeMap::iter",
    "IntoParallelRefIterator::par_iter", "IntoParallelIterator::into_par_iter",
    "IntoParallelRefMutIterator::par_iter_mut",
    "hint::must_use", "Option::cloned", "Option::copied", "Result::copied", "Result::cloned",
    "Iterator::copied", "Iterator::cloned", "ParallelIterator::copied", "ParallelIterator::cloned",
    "Iterator::by_ref", "Iterator::peekable", "Iterator::fuse", "Into::into",
    "Option::ok_or", "Option::ok_or_else", "Result::ok", "Result::map_err", "Try::branch", "Context::context",
    "Context::with_context", "Result::or", "ToOwned::to_owned", "ToString::to_string", "String::into_boxed_str",
    "BufReader::new", "BufWriter::new", "Cow::into_owned",
    "__private::must_use", "Option::as_slice", "Vec::into_boxed_slice", "slice::as_slice", "black_box",
    "hint::black_box", "Option::inspect", "Result::inspect", "IndexedParallelIterator::with_min_len",
    "IndexedParallelIterator::with_max_len", "OsStr::to_os_string", "Mmap::as_slice", "identity", "convert::identity",
    "from_ref", "Arguments::from_str", "Arguments::as_str", "PathBuf::from", "Result::as_deref", "Option::as_slice",
    "Reverse", "Path::as_path", "slice::as_ref", "Vec::leak", "Box::leak", "String::leak",
    "Vec::drain", "HashMap::drain", "BinaryHeap::drain", "mem::copy", "PathBuf::into_os_string", "Box::from",
    "BinaryHeap::into_iter_sorted", "Option::iter", "Option::into_iter", "Receiver::iter", "Receiver::try_iter",
}
RAWIDENT = {"DerefMut::deref_mut", "AsMut::as_mut", "Option::as_mut", "Result::as_mut", "Vec::as_mut_slice",
            "BorrowMut::borrow_mut", "Option::as_deref_mut", "Option::iter_mut", "Pin::get_mut", "slice::iter_mut",
            "Iterator::by_ref", "OpenOptions::read", "OpenOptions::write", "OpenOptions::create",
            "OpenOptions::truncate", "OpenOptions::append", "OpenOptions::create_new"}
PURE_PREFIX = {"f32", "f64", "u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize", "str", "char", "Path", "OsStr",
               "TypeId", "any", "String", "cmp", "num", "Duration"}
MUTATORS = {"push", "push_back", "push_front", "insert", "clear", "extend", "extend_from_slice", "append", "pop",
            "pop_front", "pop_back", "remove", "swap_remove", "retain", "truncate", "sort", "sort_by", "sort_unstable",
            "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "reverse", "reserve", "resize", "dedup",
            "swap", "rotate_left", "drain", "clone_from", "shrink_to_fit", "entry", "shift_remove", "retain_mut",
            "dedup_by", "dedup_by_key", "fill", "clone_from_slice", "copy_from_slice", "split_off", "reserve_exact",
            "select_nth_unstable", "select_nth_unstable_by", "select_nth_unstable_by_key", "shuffle", "partial_shuffle",
            "sort_by_cached_key", "insert_unique", "push_within_capacity", "copy_within", "rotate_right", "into_sorted_vec"}



def made_of(prog, ty, name):
    """the type is that library collection"""
    if ty is None:
        return False
    t = prog.types[ty]
    return t["k"] == "adt" and t["path"].split("::")[-1] == name


def is_coll_ty(flow, ti):
    if ti is None:
        return False
    p = flow.prog
    t = p.types[p.peel_ref(ti)]
    if t["k"] == "adt":
        return t["path"] in COLL_TYPES
    return False


def is_string_ty(flow, ti):
    if ti is None:
        return False
    p = flow.prog
    t = p.types[p.peel_ref(ti)]
    return t["s"] in ("std::string::String", "str", "std::path::PathBuf", "std::path::Path", "std::ffi::OsString")


def set_raw(flow, st, raw, val, n):
    """writes through a mutable reference value"""
    if raw.op == "ref":
        flow.write_lv(st, ("L", raw.a[0], raw.a[1], raw.a[2]), val, n)
    elif raw.op not in ("agg", "int", "str"):
        flow.write_lv(st, ("H", raw), val, n)


def fmt_parts(template, args):
    """decodes core::fmt's template bytes"""
    if template.op != "bytes" or args.op != "agg":
        return None
    b = bytes.fromhex(template.a[0])
    vals = args.a[2:]
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(T("str", b[i:i + c].decode("utf8", "replace")))
            i += c
        elif c == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(T("str", b[i:i + ln].decode("utf8", "replace")))
            i += ln
        elif c >= 0xC0:
            spec = c != 0xC0
            if c & 1:
                i += 4
            if c & 2:
                i += 2
            if c & 4:
                i += 2
            idx = nxt
            if c & 8:
                idx = b[i] | b[i + 1] << 8
                i += 2
            if idx >= len(vals):
                return None
            v = vals[idx]
            out.append(T("fmtspec", v) if (c & 7) else v)
            nxt = idx + 1
        else:
            return None
    return out


def clone_value(flow, v, ti, n):
    if ti is not None:
        p = flow.prog
        t = p.types[p.peel_ref(ti)]
        if (t["k"] == "adt" and t["path"] in COLL_TYPES) or t["k"] in ("slice",):
            return T("copy", v, n.id)
    return v


def generic_args(flow, c):
    fn = c.fn
    return fn.get("rargs") or fn.get("args") or []


def apply(flow, n, st, c, hof):
    name = c.name
    ty, _, m = name.partition("::")
    a = c.args
    raw = c.raw
    prog = flow.prog
    if c.fn.get("ctor"):
        p = c.fn["ctor"]
        ad = prog.adts.get(p)
        seg = p.split("::")
        if ad is not None:
            tag, names = flow.adt_tag(p, 0, None, len(a))
            v = T("agg", tag, names, *a)
            if ad.local:
                n.aggs.append(v)
            return v
        if seg[-1] in ("Some", "Ok", "Err"):
            return T("agg", ("Option::" if seg[-1] == "Some" else "Result::") + seg[-1], ("0",), *a)
        return T("agg", "::".join(seg[-2:]), tuple(str(i) for i in range(len(a))), *a)
    if hof is not None:
        r = hof_result(flow, n, st, c, hof, ty, m)
        if r is not None:
            return r
    # ---------------- locks
    if ty in ("RwLock", "Mutex", "ReentrantMutex", "FairMutex") and m in (
            "read", "write", "lock", "read_recursive", "upgradable_read", "read_arc", "write_arc", "lock_arc"):
        mode = {"write": "w", "lock": "w", "write_arc": "w", "lock_arc": "w"}.get(m, "r")
        g = T("guard", a[0], mode, n.id)
        return g
    if ty in ("RwLock", "Mutex") and m.startswith("try_"):
        g = T("guard", a[0], "w" if "write" in m or "lock" in m else "r", n.id)
        return T("tryguard", g, n.id)
    if name in ("RwLock::get_mut", "Mutex::get_mut", "RwLock::into_inner", "Mutex::into_inner"):
        return T("inner", a[0])
    if name == "ManuallyDrop::new":
        return a[0]
    if name in ("RwLock::new", "Mutex::new"):
        return T("lockof", a[0])
    if name in ("Deref::deref", "DerefMut::deref_mut"):
        v = a[0]
        if v.op == "guard":
            t = T("prot", v)
            return t if name == "DerefMut::deref_mut" else st.get(t, t)      # a place to write, or what it holds
        if name == "DerefMut::deref_mut" and raw[0].op == "ref":
            return raw[0]
        return v
    if name == "Arc::try_unwrap" or name == "Arc::into_inner":
        return T("call", name, n.id, *a)
    # ---------------- constructors of collections
    if m in ("new", "with_capacity", "with_capacity_and_hasher", "with_hasher") and ty in (
            "Vec", "HashMap", "BinaryHeap", "HashSet", "VecDeque", "BTreeMap", "BTreeSet", "IndexMap", "IndexSet"):
        return T("new", ty, n.id)
    if ty == "String" and m in ("new", "with_capacity"):
        return T("str", "")
    if name == "PathBuf::new":
        return T("str", "")
    if name == "Default::default":
        if is_coll_ty(flow, c.desttys):
            return T("new", "Default", n.id)
        ts = prog.ts(c.desttys) if c.desttys is not None else "?"
        if ts == "std::string::String":
            return T("str", "")
        if ts in PRIM_SIZE and not ts.startswith("f"):
            return FALSE
        return T("default", ts, n.id)
    if name == "vec::from_elem":
        return T("from_elem", a[0], a[1], n.id)
    if name in ("slice::to_vec", "ToOwned::to_owned", "slice::into_vec") and not is_string_ty(flow, c.desttys):
        if name == "slice::into_vec":
            return a[0]
        return T("copy", a[0], n.id)
    if name == "Clone::clone":
        return clone_value(flow, a[0], c.desttys, n)
    if name == "Clone::clone_from":
        if is_coll_ty(flow, c.argtys[0]):
            if raw[0].op == "ref":
                set_raw(flow, st, raw[0], T("copy", a[1], n.id), n)
            else:
                n.stores.append((a[0], T("copy", a[1], n.id)))
        else:
            set_raw(flow, st, raw[0], a[1], n)
        return UNIT
    if m in ("collect", "collect_vec", "collect_into_vec", "from", "from_iter", "into") and a and made_of(prog, c.desttys, "BinaryHeap") and \
            not made_of(prog, c.argtys[0] if c.argtys else None, "BinaryHeap"):
        # a heap made of what a sequence gives: the sequence is added to a new heap
        v = T("new", "BinaryHeap", n.id)
        c.name, c.args, c.raw = "BinaryHeap::extend", [v, a[0]], [v, raw[0]]
        return v
    if name == "From::from":
        if is_coll_ty(flow, c.desttys) and not is_string_ty(flow, c.desttys):
            return T("copy", a[0], n.id) if a[0].op != "agg" else a[0]
        if is_string_ty(flow, c.desttys):
            return a[0]
        ts = prog.ts(c.desttys) if c.desttys is not None else ""
        if ts in PRIM_SIZE or ts.startswith("std::boxed") or ts.startswith("std::sync::Arc"):
            return a[0]
        return T("conv", ts, a[0])
    if name == "Into::into":
        return a[0]
    # ---------------- strings / paths (functional values)
    if name in ("String::push_str", "String::push", "AddAssign::add_assign") and raw and raw[0].op == "ref":
        if is_string_ty(flow, c.argtys[0]):
            x = a[1]
            if x.op == "int" and m == "push":
                x = T("str", chr(x.a[0]))
            set_raw(flow, st, raw[0], cat(a[0], x), n)
            return UNIT
        set_raw(flow, st, raw[0], binop("Add", a[0], a[1]), n)
        return UNIT
    if name == "Add::add" and a and is_string_ty(flow, c.argtys[0]):
        return cat(a[0], a[1])
    if name == "PathBuf::push" and raw[0].op == "ref":
        set_raw(flow, st, raw[0], path_join(a[0], a[1]), n)
        return UNIT
    if name == "Path::join":
        return path_join(a[0], a[1])
    if name == "Arguments::new":
        p = fmt_parts(a[0], a[1])
        if p is not None:
            return cat(*p)
        return T("call", name, n.id, *a)
    if name in ("fmt::format", "__private::format_err", "format::format"):
        return a[0]
    if ty == "Argument" and m.startswith("new_"):
        return a[0] if m in ("new_display",) else T("debugfmt", a[0])
    if name in ("slice::concat", "Concat::concat", "slice::join") and a[0].op == "agg" and a[0].a[0] == "array":
        if m == "concat":
            return cat(*a[0].a[2:])
    if name == "str::to_string" or name == "str::to_owned":
        return a[0]
    # ---------------- misc std
    if name == "mem::drop":
        return UNIT
    if name == "mem::size_of":
        g = generic_args(flow, c)
        ts = flow.type_str(n.ctx, g[0]) if g and not isinstance(g[0], str) else "?"
        return I(PRIM_SIZE[ts]) if ts in PRIM_SIZE else T("size_of", ts)
    if name == "mem::size_of_val":
        t = c.argtys[0]
        tt = prog.types[prog.peel_ref(t)] if t is not None else None
        if tt is not None and tt["k"] in ("slice",):
            el = tt.get("to")
            ts = flow.type_str(n.ctx, el) if isinstance(el, int) else "?"
            sz = I(PRIM_SIZE[ts]) if ts in PRIM_SIZE else T("size_of", ts)
            return binop("Mul", length(a[0]), sz)
        if tt is not None and tt["s"] in PRIM_SIZE:
            return I(PRIM_SIZE[tt["s"]])
        return T("size_of_val", a[0])
    if name == "any::type_name":
        g = generic_args(flow, c)
        return T("type_name", flow.type_str(n.ctx, g[0]) if g and not isinstance(g[0], str) else "?")
    if name == "TypeId::of":
        g = generic_args(flow, c)
        return T("type_id", flow.type_str(n.ctx, g[0]) if g and not isinstance(g[0], str) else "?")
    if name == "mem::take":
        v = a[0]
        set_raw(flow, st, raw[0], T("new", "take", n.id) if is_coll_ty(flow, c.argtys[0]) else T("default", "take", n.id), n)
        return v
    if name == "mem::replace":
        set_raw(flow, st, raw[0], a[1], n)
        return a[0]
    if name == "mem::swap":
        x, y = a
        set_raw(flow, st, raw[0], y, n)
        set_raw(flow, st, raw[1], x, n)
        return UNIT
    if name in ("Option::take",):
        set_raw(flow, st, raw[0], NONE, n)
        return a[0]
    if name in ("Option::replace", "Option::insert", "Option::get_or_insert"):
        if m == "get_or_insert":
            return T("unwrap_or", a[0], a[1])
        set_raw(flow, st, raw[0], some(a[1]), n)
        return a[0] if m == "replace" else a[1]
    # ---------------- length
    if m == "len" and len(a) == 1 and ty not in ("Metadata",):
        return length(a[0])
    if m == "is_empty" and len(a) == 1:
        return eq(length(a[0]), FALSE)
    # ---------------- Option / Result
    if m in ("is_some", "is_ok"):
        return isok(a[0])
    if m in ("is_none", "is_err") and ty in ("Option", "Result"):
        return neg(isok(a[0]))
    if ty in ("Option", "Result") and m in ("unwrap", "expect", "unwrap_unchecked", "unwrap_or_default"):
        r = pay(a[0])
        if r.op == "guard":
            return r
        return st.get(r, r)
    if ty in ("Option", "Result") and m == "unwrap_or":
        return T("unwrap_or", a[0], a[1])
    if ty == "Result" and m in ("unwrap_err", "expect_err"):
        return T("errpay", a[0])
    if ty == "Result" and m == "err":
        return T("errof", a[0])
    if name == "Option::or" or name == "Result::or":
        return T("optor", a[0], a[1])
    if name == "Option::and" or name == "Result::and":
        return T("optmap", a[0], pay(a[1]), "and_then")
    if name == "Option::zip":
        return T("optmap", a[0], agg("tuple", ("0", "1"), (pay(a[0]), pay(a[1]))), "map")
    if name == "FromResidual::from_residual":
        t = prog.types[c.desttys] if c.desttys is not None else {}
        if t.get("path") == "std::option::Option":
            return NONE
        e = a[0].a[2] if a[0].op == "agg" and a[0].a[0] == "Result::Err" else T("errpay", a[0])
        return T("agg", "Result::Err", ("0",), e)
    if name in ("FromOutput::from_output", "Try::from_output", "anyhow::Ok"):
        return T("agg", "Result::Ok", ("0",), a[0])
    if name in ("Option::as_ref",):
        return a[0]
    # ---------------- comparisons and arithmetic
    if ty in ("PartialEq", "Eq") or (ty == "slice" and m in ("eq",)):
        if m == "eq":
            return eq(a[0], a[1])
        if m == "ne":
            return neg(eq(a[0], a[1]))
    if ty in ("PartialOrd", "Ord") or m in ("total_cmp",):
        if m == "lt":
            return lt(a[0], a[1])
        if m == "gt":
            return lt(a[1], a[0])
        if m == "le":
            return neg(lt(a[1], a[0]))
        if m == "ge":
            return neg(lt(a[0], a[1]))
        if m in ("partial_cmp", "cmp", "total_cmp"):
            return T("cmp", a[0], a[1])
    if ty == "Ordering":
        x = a[0]
        if m == "is_lt":
            return isv(x, "Less")
        if m == "is_gt":
            return isv(x, "Greater")
        if m == "is_eq":
            return isv(x, "Equal")
        if m == "is_le":
            return neg(isv(x, "Greater"))
        if m == "is_ge":
            return neg(isv(x, "Less"))
        if m == "is_ne":
            return neg(isv(x, "Equal"))
        if m == "reverse" and x.op == "cmp":
            return T("cmp", x.a[1], x.a[0])
    if m in ("max", "min") and len(a) == 2 and ty in ("Ord", "f32", "f64", "usize", "u8", "cmp", "i64", "u32", "i32", "u64"):
        x, y = a
        if x is y:
            return x
        if x.op == "int" and y.op == "int":
            return I(max(x.a[0], y.a[0]) if m == "max" else min(x.a[0], y.a[0]))
        if x.id > y.id:
            x, y = y, x
        return T(m, x, y)
    if m == "clamp" and len(a) == 3:
        x, y = T("max", *sorted((a[0], a[1]), key=lambda t: t.id)), a[2]
        return T("min", *sorted((x, y), key=lambda t: t.id))
    if ty in ("Add", "Sub", "Mul", "Div", "Rem", "Neg", "Not", "Shl", "Shr") and m in (
            "add", "sub", "mul", "div", "rem", "neg", "not", "shl", "shr"):
        if ty == "Neg":
            return fneg(a[0])
        if ty == "Not":
            return neg(a[0])
        return binop(ty, a[0], a[1])
    if ty in ("AddAssign", "SubAssign", "MulAssign", "DivAssign") and len(a) == 2:
        set_raw(flow, st, raw[0], binop(ty[:-6], a[0], a[1]), n)
        return UNIT
    if ty in PRIM_SIZE and m in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub"):
        return binop(m.split("_")[1].capitalize(), a[0], a[1])
    if ty in PRIM_SIZE and m in ("saturating_add", "saturating_mul"):
        return binop(m.split("_")[1].capitalize(), a[0], a[1])
    if ty in PRIM_SIZE and m == "saturating_sub":
        return T("satsub", a[0], a[1])
    if ty in PRIM_SIZE and m in ("checked_add", "checked_sub", "checked_mul", "checked_div"):
        return T("chk", m.split("_")[1].capitalize(), a[0], a[1])
    if m in ("to_ne_bytes", "to_le_bytes", "to_be_bytes"):
        return T("encode", m[3:5], ty, a[0])
    if m in ("from_ne_bytes", "from_le_bytes", "from_be_bytes"):
        x = a[0]
        if x.op == "encode" and x.a[0] == m[5:7] and x.a[1] == ty:
            return x.a[2]
        return T("decode", m[5:7], ty, x)
    if name == "f32::is_nan" or name == "f64::is_nan":
        return T("is", a[0], "nan")
    if m in ("try_from", "try_into"):
        ts = ""
        if c.desttys is not None:
            t = prog.types[c.desttys]
            if t["k"] == "adt" and t["args"]:
                ts = prog.ts(t["args"][0])
        if a and a[0].op == "int":
            return agg("Result::Ok", ("0",), (a[0],))
        if ts in PRIM_SIZE:
            return T("tryconv", ts, a[0])
        return T("agg", "Result::Ok", ("0",), a[0]) if ts.startswith("[") or ts.startswith("&[") else T("tryconv", ts, a[0])
    # ---------------- indexing
    if name in ("Index::index", "IndexMut::index_mut"):
        base, i = a
        if i.op == "agg" and i.a[0] == "Range":
            return T("slice", base, i.a[2], i.a[3])
        if i.op == "agg" and i.a[0] == "RangeInclusive":
            return T("slice", base, i.a[2], binop("Add", i.a[3], I(1)))
        if i.op == "agg" and i.a[0] == "RangeTo":
            return T("slice", base, FALSE, i.a[2])
        if i.op == "agg" and i.a[0] == "RangeToInclusive":
            return T("slice", base, FALSE, binop("Add", i.a[2], I(1)))
        if i.op == "agg" and i.a[0] == "RangeFrom":
            return T("slice", base, i.a[2], length(base))
        if i.op == "const" and "RangeFull" in i.a[1] or i.op == "agg" and i.a[0] == "RangeFull":
            return base
        r = flow.index(st, base, i)
        return T("index", base, i) if m == "index_mut" and base.op not in ("agg", "from_elem", "updidx") else r
    if name in ("RangeInclusive::new",):
        return agg("RangeInclusive", ("start", "end"), (a[0], a[1]))
    if m in ("start", "end") and ty == "RangeInclusive":
        return agg_get(a[0], m) or T("field", a[0], m)
    if name in ("slice::get", "slice::get_mut", "Vec::get", "Vec::get_mut") and len(a) == 2:
        i = a[1]
        if i.op == "agg" and i.a[0] == "Range":
            return T("getslice", a[0], i.a[2], i.a[3])
        return T("get", a[0], i)
    if name in ("slice::get_unchecked", "Vec::get_unchecked"):
        return flow.index(st, a[0], a[1])
    if name in ("slice::first", "slice::first_mut", "Vec::first"):
        return T("first", a[0])
    if name in ("slice::last", "slice::last_mut", "Vec::last"):
        return T("last", a[0])
    if m in ("get", "get_mut", "get_key_value") and ty in ("HashMap", "IndexMap", "BTreeMap"):
        return T("mapget" if m != "get_key_value" else "mapgetkv", a[0], a[1])
    if m in ("contains_key", "contains") and ty in ("HashMap", "IndexMap", "BTreeMap", "HashSet", "BTreeSet", "IndexSet",
                                                     "slice", "Vec"):
        return T("contains", a[0], a[1])
    if m in ("contains",) and a and a[0].op == "agg" and a[0].a[0] in ("Range", "RangeInclusive"):
        x = a[1]
        lo, hi = a[0].a[2], a[0].a[3]
        hi2 = lt(x, hi) if a[0].a[0] == "Range" else neg(lt(hi, x))
        lo2 = neg(lt(x, lo)) if lo is not FALSE else TRUE
        return binop("BitAnd", lo2, hi2)
    if m == "peek" and ty == "BinaryHeap":
        return T("peek", a[0], n.id)
    if m in ("pop", "pop_front", "pop_back") and ty in ("BinaryHeap", "Vec", "VecDeque"):
        return T("pop", a[0], n.id)
    if m == "entry":
        return T("entry", a[0], a[1], n.id)
    if name == "BinaryHeap::into_vec":
        return T("coll", a[0], n.id)
    if m == "into_sorted_vec":
        return T("sorted", a[0], n.id)
    # ---------------- iterators
    if name in ("Iterator::next", "DoubleEndedIterator::next_back"):
        return T("next", a[0], n.id)
    if m == "enumerate":
        return T("enum", a[0])
    if m in ("rev", "take", "skip", "step_by", "chain", "zip", "take_any", "zip_eq", "multi_zip"):
        if m in ("zip", "zip_eq"):
            return T("zip", a[0], a[1])
        if m == "step_by":
            return T("stepby", a[0], a[1])
        if m == "chain":
            return T("chain", a[0], a[1])
        return T(m, *a)
    if m == "flatten" and ty in ("Iterator", "ParallelIterator"):
        return T("flatten", a[0])
    if m == "flatten":
        return T("pay", a[0])
    if m in ("collect", "collect_vec", "collect_into_vec"):
        return T("coll", a[0], n.id)
    if m in ("sum", "count", "product") and ty in ("Iterator", "ParallelIterator"):
        return T(m, a[0])
    if m in ("max", "min", "last", "nth") and ty == "Iterator":
        return T("minby", a[0], n.id)
    if m in ("keys", "into_keys"):
        return T("keys", a[0])
    if m in ("values", "values_mut", "into_values"):
        return T("values", a[0])
    if m in ("chunks", "chunks_mut", "par_chunks") and ty in ("slice", "ParallelSlice"):
        return T("chunks", a[0], a[1], n.id)
    if m in ("windows", "chunks_exact", "chunks_exact_mut", "rchunks_exact", "par_windows", "par_chunks_exact", "par_chunks_exact_mut") and \
            ty in ("slice", "ParallelSlice", "ParallelSliceMut"):
        return T("windows" if "windows" in m else "chunksx", a[0], a[1], n.id)
    if name in ("iter::repeat", "iter::once", "iter::empty", "iter::repeat_n"):
        return T("agg", "array", ("0",), a[0]) if a and m == "once" else T("call", name, n.id, *a)
    if m in ("split_at", "split_at_mut"):
        return agg("tuple", ("0", "1"), (T("slice", a[0], FALSE, a[1]), T("slice", a[0], a[1], length(a[0]))))
    # ---------------- io
    if ty == "OpenOptions" and m in ("read", "write", "create", "truncate", "append", "create_new") and len(raw) == 2:
        set_raw(flow, st, raw[0], T("opt", a[0], m, a[1]), n)
        return raw[0]
    if m == "read_exact":
        buf = a[1]
        ln = length(buf)
        set_raw(flow, st, raw[1], flow.policy.given.get(n.id) or T("readbytes", n.id, a[0], ln), n)
        return T("io", n.id, m)
    if ty != "OpenOptions" and m in ("write_all", "flush", "write", "sync_all", "read_to_end", "seek", "write_fmt", "sync_data"):
        return T("io", n.id, m)
    if name == "Vec::resize" and len(a) == 3 and a[0].op in ("new", "from_elem") and c.argtys[0] is not None and \
            "Vec<u8" in prog.ts(c.argtys[0]):
        # bytes made room for: from here on the buffer is as long as asked
        set_raw(flow, st, raw[0], T("from_elem", a[2], a[1], n.id), n)
        return UNIT
    if m in ("copy_from_slice", "clone_from_slice") and ty == "slice":
        set_raw(flow, st, raw[0], T("bytescopy", a[1]), n)
        return UNIT
    if name in IDENT:
        return a[0] if a else UNDEF
    if name in ("BufReader::with_capacity", "BufWriter::with_capacity"):
        return a[1]
    if name in RAWIDENT:
        return raw[0]
    if name == "Extend::extend":
        return UNIT
    if name in ("Distance::eval",):
        return T("eval", *a)
    if name == "FilterT::hnsw_filter":
        return T("accept", *a)
    if m in MUTATORS and ty not in ("OpenOptions",):
        # the collection keeps its identity, the change is this node's event
        if m in ("clear", "push", "sort", "reserve", "truncate", "reverse", "extend", "append", "retain") or m.startswith("sort"):
            return UNIT
        return T("call", name, n.id, *a)
    if m in ("as_ptr", "as_mut_ptr", "into_raw") and len(a) == 1:
        return T("ptr", a[0])
    if name == "slice::from_raw_parts":
        return T("rawslice", a[0], a[1])
    if name == "ptr::null" or name == "ptr::null_mut":
        return T("null")
    if name in ("bool::then",):
        return T("boolopt", a[0], UNDEF)
    if name == "bool::then_some":
        return T("boolopt", a[0], a[1])
    # ---------------- default: unknown result; locals handed over by &mut are clobbered
    for i, r in enumerate(raw):
        if r.op == "ref":
            t = c.argtys[i]
            if t is not None:
                ty_ = prog.types[t]
                if ty_["k"] == "ref" and ty_.get("mut") and not is_coll_ty(flow, t):
                    old = flow.deref(st, r)
                    if old.op in ("guard", "new", "coll", "copy", "from_elem"):
                        continue
                    if old.op == "agg" and old.a[0].startswith("closure:"):
                        continue
                    set_raw(flow, st, r, T("mod", n.id, i, name), n)
    pure = ty in PURE_PREFIX
    return T("call", name, 0 if pure else n.id, *a)


def path_join(a, b):
    if a.op == "str" and a.a[0] == "":
        return b
    if a.op == "join":
        return T("join", *(a.a + ((b.a) if b.op == "join" else (b,))))
    return T("join", a, b)


def call_item(flow, n, st, fn, nm, x):
    """a function of the standard library handed over by its name, applied to one value"""
    name = short(nm)
    if fn.get("trait"):
        name = fn["trait"].split("::")[-1] + "::" + fn["name"]
    ty, m = (name.split("::") + [""])[:2]
    if ty in PRIM_SIZE or m in ("len", "is_empty", "is_some", "is_none", "is_ok", "is_err", "ok", "unwrap"):
        c = Call()
        c.name, c.fn, c.raw, c.args, c.dest, c.node, c.argtys, c.desttys = name, fn, [x], [x], None, n, [None], None
        return apply(flow, n, st, c, None)
    return T("call", nm, 0, x)


def hof_result(flow, n, st, c, hof, ty, m):
    a = c.args

    def res(ai):
        return st.get((hof.ctx.id, "res", hof.id, ai), UNDEF)
    ais = [x[0] for x in hof.x[4] if x[2] is not None]
    exts = [x for x in hof.x[4] if x[2] is None]
    r0 = a[0] if a else UNDEF
    out = None
    if not ais:
        # only std / constructor items such as map(Some) or map(Arc::clone)
        ai, cc, _ = exts[0]
        fn = cc[2]
        nm = (fn.get("res") or fn["path"])
        inner = elem(r0, hof.id) if ty not in ("Option", "Result") else pay(r0)
        if fn.get("ctor"):
            seg = fn["ctor"].split("::")[-1]
            inner = some(inner) if seg == "Some" else T("agg", seg, ("0",), inner)
        elif any(nm.endswith(x) for x in ("::clone", "::from", "::into", "as_ref", "::deref", "Arc::clone", "::to_owned", "::as_slice", "Box::new", "Arc::new")):
            pass
        else:
            inner = call_item(flow, n, st, fn, nm, inner)
        fr = inner
    else:
        fr = res(ais[-1])
    if ty in ("Option", "Result"):
        if m == "map":
            out = T("optmap", r0, fr, "map")
        elif m in ("and_then",):
            out = T("optmap", r0, pay(fr), "and_then", fr)
        elif m == "filter":
            out = T("optmap", r0, pay(r0), "filter", fr)
        elif m in ("map_or", "map_or_else", "unwrap_or_else", "unwrap_or_default", "map_or_default"):
            if m == "map_or":
                out = T("unwrap_or", T("optmap", r0, fr, "map"), a[1])
            elif m == "map_or_else":
                out = T("unwrap_or", T("optmap", r0, fr, "map"), res(ais[0]) if len(ais) > 1 else UNDEF)
            else:
                out = T("unwrap_or", r0, fr)
        elif m in ("is_some_and", "is_ok_and"):
            out = T("bin", "BitAnd", isok(r0), fr) if isok(r0) is not TRUE else fr
        elif m == "is_none_or":
            out = T("bin", "BitOr", neg(isok(r0)), fr)
        elif m in ("ok_or_else", "map_err", "inspect", "with_context", "inspect_err"):
            out = r0
        elif m in ("or_else",):
            out = T("optor", r0, fr)
        elif m == "get_or_insert_with":
            out = T("unwrap_or", r0, fr)
        return out
    if ty == "Context":
        return r0
    if ty == "bool" and m == "then":
        return T("boolopt", r0, fr)
    if m in ("map", "map_with", "map_init"):
        out = T("map", r0, fr, hof.id)
    elif m in ("filter", "take_while", "skip_while"):
        flow.filter_ret[hof.id] = fr
        out = T("filter" if m == "filter" else ("takewhile" if m == "take_while" else "skip"), r0, hof.id)
    elif m in ("filter_map", "map_while"):
        out = T("filtermap", r0, fr, hof.id)
    elif m in ("flat_map", "flat_map_iter"):
        out = T("flatmap", r0, fr, hof.id)
    elif m in ("for_each", "for_each_with", "try_for_each", "for_each_init", "inspect"):
        out = r0 if m == "inspect" else UNIT
        if m == "try_for_each":
            ty = flow.prog.ts(c.desttys) if c.desttys is not None else ""
            vn = "Result::Ok" if "Result<" in ty.split("<")[0] + "<" else "Option::Some" if "Option<" in ty.split("<")[0] + "<" else None
            out = agg(vn, ("0",), (UNIT,)) if vn else T("tryeach", hof.id)
    elif m in ("any", "all"):
        out = T(m, r0, fr, hof.id)
    elif m in ("position", "rposition", "position_any", "position_first"):
        out = T("position", r0, fr, hof.id)
    elif m in ("find", "find_any", "find_first"):
        flow.filter_ret[hof.id] = fr
        out = T("find", r0, hof.id, fr)
    elif m == "find_map":
        out = T("optmap", T("find", r0, hof.id, isok(fr)), pay(fr), "map")
    elif m in ("fold", "rfold"):
        out = st.get((hof.ctx.id, "acc", hof.id), UNDEF)
    elif m in ("min_by", "max_by", "min_by_key", "max_by_key", "reduce"):
        out = T("minby", r0, hof.id)
    elif m in ("or_insert_with",):
        out = T("call", "Entry::or_insert_with", n.id, r0, fr)
    elif m == "from_fn":
        out = T("map", T("from_fn", hof.id), fr, hof.id)
    elif m.startswith("sort") or m in ("retain", "retain_mut", "dedup_by_key", "dedup_by", "resize_with"):
        flow.filter_ret[hof.id] = flow.filter_ret[n.id] = fr
        flow.hof_site[n.id] = hof.id
        return UNIT
    return out
