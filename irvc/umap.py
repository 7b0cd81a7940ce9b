"""Trusted contract of std::unordered_map<std::string, T> (T scalar): finite map, entries visited once each, in the order of insertion.
An entry is an object with the key at offset 0 and the value at offset 32."""
import re
from models import *
from models import prefix, ret, str_eq
def um(ex, st, p):
    v = ex.rd(st, p)
    if isinstance(v, Opaque) and v.tag == "umap": return v.p
    raise Unsupported("unordered_map object")
def put(ex, st, p, ents): ex.wr(st, p, Opaque("umap", tuple(ents)), 56)
def vt(f):
    m = re.search(r"unordered_map<std::__cxx11::basic_string<.*?>>?, (unsigned long|double|int|long)", f.dem)
    if not m: raise Unsupported("unordered_map of " + f.dem[:160])
    return m.group(1)
def vsz(t): return 4 if t == "int" else 8
def sval(ex, st, p):
    v = ex.rd(st, p)
    if isinstance(v, Opaque) and v.tag == "cstr": v = Str(v.p.rstrip(b"\0"))
    if not isinstance(v, Str): raise Unsupported("string key")
    return v
def node(i): return Ptr(i, (0,))
NIL = NULL
def look(ex, st, ents, k):
    """entry with key k, None when absent; key comparisons must be decided"""
    for i in ents:
        c = str_eq(ex.rd(st, node(i)), k)
        if c is TRUE: return i
        if c is not FALSE: raise Unsupported("undecided comparison of names %r %r" % (ex.rd(st, node(i)), k))
    return None
def at(ex, st, i, off): return ex.padd(st, node(i), P(off), 1)
def add(ex, st, p, ents, k, v, sz):
    i = st.new("heap", 48, "entry")
    ex.wr(st, node(i), k, 32); ex.wr(st, at(ex, st, i, 32), v, sz); ex.wr(st, at(ex, st, i, 40), NIL, 8)
    if ents: ex.wr(st, at(ex, st, ents[-1], 40), node(i), 8)
    put(ex, st, p, ents + (i,)); return i
def dup(ex, st, p, src, sz):
    put(ex, st, p, ())
    for i in src: add(ex, st, p, um(ex, st, p), ex.rd(st, node(i)), ex.rd(st, at(ex, st, i, 32), sz), sz)
@prefix("std::unordered_map::")
def um_hook(ex, st, f, a, I):
    m = f.key.split("::")[-1]; t = vt(f); sz = vsz(t)
    if m == "unordered_map":
        if len(a) == 1: put(ex, st, a[0], ()); return ret(st)
        if len(a) == 2:
            e = um(ex, st, a[1])
            if f.dem.rstrip().endswith("&&)"): put(ex, st, a[0], e); put(ex, st, a[1], ()); return ret(st)
            dup(ex, st, a[0], e, sz); return ret(st)
        raise Unsupported(f.dem[:160])
    if m.startswith("~"): return ret(st)
    e = um(ex, st, a[0])
    if m == "operator=":
        if a[0] == a[1]: return ret(st, a[0])
        if f.dem.rstrip().endswith("&&)"): put(ex, st, a[0], um(ex, st, a[1])); put(ex, st, a[1], ())
        else: dup(ex, st, a[0], um(ex, st, a[1]), sz)
        return ret(st, a[0])
    if m in ("size", "empty"): return P(len(e)) if m == "size" else B(not e)
    if m in ("reserve", "rehash"): return ret(st)
    if m == "clear": put(ex, st, a[0], ()); return ret(st)
    if m in ("begin", "cbegin"): return node(e[0]) if e else NIL
    if m in ("end", "cend"): return NIL
    if m in ("insert", "emplace", "try_emplace", "insert_or_assign"):
        if m == "insert" and len(a) == 2 and isinstance(a[1], Ptr): k, v = sval(ex, st, a[1]), ex.rd(st, ex.padd(st, a[1], P(32), 1), sz)
        elif len(a) == 3 and m != "insert": k, v = sval(ex, st, a[1]), ex.rd(st, a[2], sz)
        else: raise Unsupported("unordered_map::" + m)
        i = look(ex, st, e, k)
        if i is not None and m == "insert_or_assign": ex.wr(st, at(ex, st, i, 32), v, sz)
        r = i if i is not None else add(ex, st, a[0], e, k, v, sz)
        return Agg((node(r), P(0 if i is not None else 1)))
    i = look(ex, st, e, sval(ex, st, a[1]))
    if m == "at": return [(st, "throw", "std::out_of_range")] if i is None else at(ex, st, i, 32)
    if m == "find": return NIL if i is None else node(i)
    if m in ("count", "contains"): return (P(0 if i is None else 1) if m == "count" else B(i is not None))
    if m == "operator[]":
        if i is None: i = add(ex, st, a[0], e, sval(ex, st, a[1]), ZERO, sz)
        return at(ex, st, i, 32)
    raise Unsupported("unordered_map::" + m + " " + f.dem[-120:])
@prefix("std::__detail::_Node_iterator::", "std::__detail::_Node_const_iterator::", "std::__detail::_Node_iterator_base::")
def ni_hook(ex, st, f, a, I):
    m = f.key.split("::")[-1]
    if m in ("operator*", "operator->"):
        p = ex.rd(st, a[0], 8)
        if not isinstance(p, Ptr) or p.obj is None: raise Unsupported("end iterator read")
        return p
    if m == "_M_incr":
        p = ex.rd(st, a[0], 8)
        ex.wr(st, a[0], ex.rd(st, ex.padd(st, p, P(40), 1), 8), 8); return ret(st)
    return NotImplemented
