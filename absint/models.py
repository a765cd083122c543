"""Transfer functions of the library operations the analysed code calls (vectors, strings, maps,
cursors, streams, iterators, arithmetic intrinsics). Everything else is analysed from its MIR.
"""
import re
from terms import *
import engine as E

Und, Infeasible = E.Und, E.Infeasible
Panic, Inline = E.Panic, E.Inline

TABLE = []
STD = re.compile(r"\b(?:core|alloc)::")


def model(*pats):
    def deco(fn):
        for p in pats:
            TABLE.append((re.compile("^(?:" + STD.sub("std::", p) + ")$"), fn))
        return fn

    return deco


def name_of(inst):
    return inst["def"]


def find(en, inst, orig, nxt, otys):
    d = inst["def"]
    if inst["crate"] == "postscript":
        # derived comparison of fieldless enumerations and such are analysed from their bodies
        return None
    d = STD.sub("std::", d)
    for rx, fn in TABLE:
        if rx.match(d):
            return fn
    if "precondition_check" in d:
        return lambda en, st, args, dty: unit(en, dty)
    return None


# ------------------------------------------------------------------ helpers


def unit(en, dty):
    return A(dty, 0, ())


def rd(en, st, r):
    """Value behind a reference (or chain of references)."""
    while True:
        if isinstance(r, O) and en.types[r.ty]["k"] in ("ref", "ptr"):
            r = en.oref(st, r)
        if isinstance(r, A):
            p = E.unwrap_ptr(r)
            if isinstance(p, R):
                r = p
        if not isinstance(r, R):
            return r
        v = en.read(st, r.cell, r.path)
        if isinstance(v, R) or (isinstance(v, O) and en.types[v.ty]["k"] in ("ref", "ptr")):
            r = v
            continue
        return v


def ref(en, st, r):
    """The innermost reference of a chain."""
    while True:
        if isinstance(r, O) and en.types[r.ty]["k"] in ("ref", "ptr"):
            r = en.oref(st, r)
        if isinstance(r, A):
            p = E.unwrap_ptr(r)
            if isinstance(p, R):
                r = p
        if not isinstance(r, R):
            raise Und("reference %r" % (r,))
        v = en.read(st, r.cell, r.path)
        if isinstance(v, O) and en.types[v.ty]["k"] in ("ref", "ptr"):
            v = en.oref(st, v)
        if isinstance(v, R):
            r = v
            continue
        return r


def wr(en, st, r, v):
    en.write(st, r.cell, r.path, v)


def enum(en, ty, name, *f):
    return A(ty, en.variant_index(ty, name), tuple(f))


def some(en, ty, v):
    return enum(en, ty, "Some", v)


def none(en, ty):
    return enum(en, ty, "None")


def seq(en, st, r):
    v = rd(en, st, r)
    if isinstance(v, T):
        return en.tbytes(v)
    if isinstance(v, A) and v.f and isinstance(v.f[0], S):
        return v.f[0]
    if not isinstance(v, S):
        raise Und("sequence %r" % (v,))
    return v


def concretise(en, st, i, n, most=64):
    """Fork a symbolic index into its possible values when the sequence has explicit elements."""
    i = st.simp(i)
    if isinstance(i, int):
        return [(st, i)]
    lo, hi = st.rng(i)
    n = st.simp(n)
    if isinstance(n, int):
        hi = min(hi, n - 1)
    lo = max(lo, 0)
    if hi - lo > most:
        raise Und("index among many elements")
    out = []
    cur = [st]
    for v in range(lo, hi + 1):
        nx = []
        for s0 in cur:
            for s, b in en.fork(s0, ("eq", add(i, -v))):
                if b:
                    out.append((s, v))
                else:
                    nx.append(s)
        cur = nx
    return out


def needs_split(en, v):
    return isinstance(v, S) and len(v.segs) > 1


def elem_index(en, st, v, i):
    """States in which position i can be addressed in v."""
    try:
        s2 = st
        en.sget(s2, v, i)
        return [(st, st.simp(i))]
    except Und:
        if any(s[0] != "e" for s in v.segs):
            raise
        return settle(en, st, i, v)


def settle(en, st, i, v):
    """Fork a symbolic index into a sequence of explicit elements; neighbours in a table of constants stay together if they follow one another."""
    i = st.simp(i)
    n = len(v.segs)
    if isinstance(i, int) or most(v) == 64:
        return concretise(en, st, i, en.slen(v))
    lo, hi = bounds(en, st, i, n)
    if hi - lo > 1024:
        raise Und("index among many elements")
    out, cur, a = [], st, lo
    while cur is not None and a <= hi:
        b = run_end(en, cur, v, a, hi)
        nxt = None
        for s, here in en.fork(cur, ("eq", add(i, -a)) if a == b else ("ge", sub(b, i))):
            if not here:
                nxt = s
            else:
                out.append((s, s.simp(i)))
        cur, a = nxt, b + 1
    return out


def entry(en, st, x):
    """A constant of a table, as something to compare: a number, a character, or the constant itself."""
    if isinstance(x, int):
        return "i", x
    if isinstance(x, R):
        t = rd(en, st, x)
        if isinstance(t, T) and len(t.p) <= 1 and all(isinstance(c, str) for c in t.p):
            t = t.p[0] if t.p else ""
            return ("c", ord(t)) if len(t) == 1 and ord(t) < 128 else ("s", t)
        return "r", x
    return "x", x


def bounds(en, st, i, n):
    """The least and the greatest position the path leaves open."""
    lo, hi = st.rng(i)
    lo, hi = max(lo, 0), min(hi, n - 1)
    a, b = lo, hi
    while a < b:
        m = (a + b + 1) // 2
        if en.decide(st, ("ge", add(i, -m))):
            a = m
        else:
            b = m - 1
    lo, b = a, hi
    while a < b:
        m = (a + b) // 2
        if en.decide(st, ("ge", sub(m, i))):
            b = m
        else:
            a = m + 1
    return lo, b


def run_end(en, st, v, a, hi):
    x = entry(en, st, v.segs[a][1])
    e = [x]
    j = a
    while j < hi:
        y = entry(en, st, v.segs[j + 1][1])
        if y[0] != x[0]:
            break
        if len(e) == 1:
            d = 0 if y[1] == x[1] else 1 if x[0] in ("i", "c") and y[1] == x[1] + 1 else None
            if d is None:
                break
        elif not (y[1] == x[1] if d == 0 else y[1] == e[-1][1] + 1):
            break
        e.append(y)
        j += 1
    return j


def run_value(en, st, v, i):
    """The element of a table of constants at a symbolic position, if all that are possible follow one another."""
    lo, hi = bounds(en, st, i, len(v.segs))
    if hi < lo or hi - lo > 1024 or any(s[0] != "e" or not constant(s[1]) for s in v.segs[lo : hi + 1]):
        return None
    if run_end(en, st, v, lo, hi) != hi:
        return None
    x, y = entry(en, st, v.segs[lo][1]), entry(en, st, v.segs[hi][1])
    if x == y:
        return v.segs[lo][1]
    f = add(i, x[1] - lo)
    if x[0] == "i":
        return f
    t = E.tnorm((("ch", f),))
    st.mem[("t", t)] = t
    return R(("t", t))


def most(v):
    """How many positions are worth telling apart: all those of a table of constants."""
    return 1024 if all(s[0] == "e" and constant(s[1]) for s in v.segs) else 64


def constant(v):
    if isinstance(v, A):
        return all(constant(x) for x in v.f)
    return isinstance(v, (int, R)) or (isinstance(v, T) and all(isinstance(x, str) for x in v.p))


def apply_path(r, *p):
    return R(r.cell, r.path + tuple(p))


def slice_of(en, st, r, a, n):
    a, n = st.simp(a), st.simp(n)
    return R(r.cell, r.path + (("sl", a, n),))


def slice_base(r):
    """(reference to the underlying sequence, start) for a reference ending in slices."""
    start = 0
    p = list(r.path)
    while p and p[-1][0] == "sl":
        start = add(start, p[-1][1])
        p.pop()
    return R(r.cell, tuple(p)), start


def elem_ref(r, i):
    b, s = slice_base(r)
    return R(b.cell, b.path + (("i", add(s, i)),))


def ints(en, st, v):
    return en.as_int(st, v)


# ------------------------------------------------------------------ vectors


@model(r"std::vec::Vec::<T>::new", r"std::vec::Vec::<T, A>::new_in", r"<std::vec::Vec<T> as std::default::Default>::default")
def vec_new(en, st, args, dty):
    return S(())


@model(r"std::vec::Vec::<T>::with_capacity", r"std::vec::Vec::<T, A>::with_capacity_in")
def vec_cap(en, st, args, dty):
    n = ints(en, st, args[0])
    t = en.types[dty]
    st.ev = st.ev + (("alloc", n, t["s"]),)
    size = elem_size(en, t["args"][0])
    lim = (2**63 - 1) // max(1, size)
    out = []
    for s, ok in en.fork(st, ("ge", sub(lim, n))):
        out.append((s, S(()) if ok else Panic("capacity overflow")))
    return out


def elem_size(en, ty):
    """A lower bound of the size of a type in bytes."""
    t = en.types[ty]
    k = t["k"]
    if k == "int" or k == "float":
        return t["bits"] // 8
    if k in ("ref", "ptr", "fnptr"):
        return 8
    if k == "adt" and t["name"] in ("std::vec::Vec", "std::string::String"):
        return 24
    if k == "adt" and t["name"] == "std::collections::HashMap":
        return 48
    if k == "adt" and t["ak"] == "struct" and t["variants"]:
        return sum(elem_size(en, f[1]) for f in t["variants"][0]["fields"])
    if k == "tuple":
        return sum(elem_size(en, x) for x in t["tys"])
    return 1


@model(r"std::vec::Vec::<T, A>::push", r"std::collections::VecDeque::<T, A>::push_back")
def vec_push(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    wr(en, st, r, S(v.segs + (("e", args[1]),)))
    return unit(en, dty)


@model(r"std::vec::Vec::<T, A>::pop", r"std::collections::VecDeque::<T, A>::pop_back")
def vec_pop(en, st, args, dty):
    r = ref(en, st, args[0])
    return pop_at(en, st, r, dty, False)


@model(r"std::collections::VecDeque::<T, A>::pop_front")
def vec_pop_front(en, st, args, dty):
    r = ref(en, st, args[0])
    return pop_at(en, st, r, dty, True)


def pop_at(en, st, r, dty, front):
    v = seq(en, st, r)
    if not v.segs:
        return none(en, dty)
    g = v.segs[0] if front else v.segs[-1]
    if g[0] == "e":
        wr(en, st, r, S(v.segs[1:] if front else v.segs[:-1]))
        return some(en, dty, g[1])
    n = en.slen(v)
    out = []
    for s, b in en.fork(st, ("ge", add(n, -1))):
        if not b:
            out.append((s, none(en, dty)))
            continue
        i = 0 if front else add(n, -1)
        x = en.sget(s, v, i)
        l, rr = en.ssplit(s, v, 1 if front else add(n, -1))
        wr(en, s, r, rr if front else l)
        out.append((s, some(en, dty, x)))
    return out


@model(r"std::vec::Vec::<T, A>::len", r"core::slice::<impl \[T\]>::len", r"std::string::String::len", r"core::str::<impl str>::len",
       r"std::collections::VecDeque::<T, A>::len")
def vec_len(en, st, args, dty):
    v = rd(en, st, args[0])
    if isinstance(v, A) and v.f and isinstance(v.f[0], (S, T)):
        v = v.f[0]
    return st.simp(en.slen(v))


@model(r"std::vec::Vec::<T, A>::is_empty", r"core::slice::<impl \[T\]>::is_empty", r"std::string::String::is_empty", r"core::str::<impl str>::is_empty")
def vec_is_empty(en, st, args, dty):
    v = rd(en, st, args[0])
    return en.mkb(st, ("eq", st.simp(en.slen(v))))


@model(r"std::vec::Vec::<T, A>::clear", r"std::string::String::clear")
def vec_clear(en, st, args, dty):
    r = ref(en, st, args[0])
    wr(en, st, r, T(()) if isinstance(rd(en, st, r), T) else S(()))
    return unit(en, dty)


@model(r"std::vec::Vec::<T, A>::truncate")
def vec_truncate(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    n = ints(en, st, args[1])
    out = []
    for s, b in en.fork(st, ("ge", sub(en.slen(v), n))):
        if b:
            for s2, j in split_states(en, s, v, n):
                wr(en, s2, r, en.ssplit(s2, v, j)[0])
                out.append((s2, unit(en, dty)))
        else:
            out.append((s, unit(en, dty)))
    return out


def split_states(en, st, v, n):
    """States in which v can be split at n (0 <= n <= len)."""
    try:
        en.ssplit(st, v, n)
        return [(st, st.simp(n))]
    except Und:
        if any(s[0] != "e" for s in v.segs):
            raise
        return concretise(en, st, n, add(en.slen(v), 1))


@model(r"std::vec::Vec::<T, A>::remove")
def vec_remove(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    i = ints(en, st, args[1])
    out = []
    for s, ok in en.fork(st, ("ge", add(sub(en.slen(v), i), -1))):
        if not ok:
            out.append((s, Panic("removal index out of range")))
            continue
        for s2, j in elem_index(en, s, v, i):
            l, rr = en.ssplit(s2, v, j)
            m, rr = en.ssplit(s2, rr, 1)
            wr(en, s2, r, en.scat(l, rr))
            out.append((s2, en.sget(s2, v, j)))
    return out


@model(r"std::vec::Vec::<T, A>::swap_remove")
def vec_swap_remove(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    i = ints(en, st, args[1])
    n = en.slen(v)
    out = []
    for s, ok in en.fork(st, ("ge", add(sub(n, i), -1))):
        if not ok:
            out.append((s, Panic("swap_remove index out of range")))
            continue
        for s2, j in elem_index(en, s, v, i):
            x = en.sget(s2, v, j)
            last = en.sget(s2, v, add(n, -1))
            w = en.sset(s2, v, j, last)
            wr(en, s2, r, en.ssplit(s2, w, add(n, -1))[0])
            out.append((s2, x))
    return out


@model(r"std::vec::Vec::<T, A>::insert")
def vec_insert(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    i = ints(en, st, args[1])
    out = []
    for s, ok in en.fork(st, ("ge", sub(en.slen(v), i))):
        if not ok:
            out.append((s, Panic("insertion index out of range")))
            continue
        for s2, j in split_states(en, s, v, i):
            l, rr = en.ssplit(s2, v, j)
            wr(en, s2, r, S(l.segs + (("e", args[2]),) + rr.segs))
            out.append((s2, unit(en, dty)))
    return out


@model(r"std::vec::Vec::<T, A>::extend_from_slice", r"std::vec::Vec::<T, A>::append")
def vec_extend_slice(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    q = ref(en, st, args[1])
    w = seq(en, st, q)
    wr(en, st, r, en.scat(v, w))
    if name_cur(en).endswith("append"):
        wr(en, st, q, S(()))
    return unit(en, dty)


def name_cur(en):
    return en.cur[0]["def"]


@model(r"std::vec::Vec::<T, A>::resize")
def vec_resize(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    n = ints(en, st, args[1])
    out = []
    for s, grow in en.fork(st, ("ge", sub(n, en.slen(v)))):
        if grow:
            m = s.simp(sub(n, en.slen(v)))
            wr(en, s, r, en.scat(v, repeat(args[2], m)))
        else:
            for s2, j in split_states(en, s, v, n):
                wr(en, s2, r, en.ssplit(s2, v, j)[0])
        out.append((s, unit(en, dty)))
    return out


def repeat(x, m):
    if isinstance(m, int) and m <= 64:
        return S((("e", x),) * m)
    return S((("rep", m, x),))


@model(r"std::vec::from_elem")
def vec_from_elem(en, st, args, dty):
    n = ints(en, st, args[1])
    st.ev = st.ev + (("alloc", n, en.types[dty]["s"]),)
    return repeat(args[0], st.simp(n))


@model(r"std::vec::Vec::<T, A>::(as_slice|as_mut_slice)", r"<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?",
       r"<std::string::String as std::ops::Deref(Mut)?>::deref(_mut)?", r"std::string::String::(as_str|as_bytes)", r"core::str::<impl str>::as_bytes",
       r"<std::vec::Vec<T, A> as std::convert::AsRef<.*>>::as_ref", r"<std::vec::Vec<T, A> as std::borrow::Borrow<.*>>::borrow",
       r"core::slice::<impl \[T\]>::as_ref", r"<\[T\] as std::convert::AsRef<\[T\]>>::as_ref")
def deref_same(en, st, args, dty):
    return ref(en, st, args[0])


@model(r"<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?", r"core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?",
       r"core::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?", r"<std::string::String as std::ops::Index(Mut)?<I>>::index(_mut)?",
       r"core::str::traits::<impl std::ops::Index(Mut)?<I> for str>::index(_mut)?")
def vec_index(en, st, args, dty):
    r = ref(en, st, args[0])
    return index_ref(en, st, r, args[1], dty, None)


def range_of(en, st, ix, n):
    """(start, end) of a range value over a sequence of length n, or None for a position."""
    if isinstance(ix, A):
        t = en.types[ix.ty]
        nm = t["name"].split("::")[-1] if t["k"] == "adt" else ""
        f = [ints(en, st, x) if isinstance(x, (int, L, Bx)) else x for x in ix.f]
        if nm == "Range":
            return f[0], f[1]
        if nm == "RangeFrom":
            return f[0], n
        if nm == "RangeTo":
            return 0, f[0]
        if nm == "RangeFull":
            return 0, n
        if nm == "RangeInclusive":
            return f[0], add(f[1], 1)
        if nm == "RangeToInclusive":
            return 0, add(f[0], 1)
        raise Und("index of type " + t["s"])
    return None


def index_ref(en, st, r, ix, dty, opt):
    """Index by position or range: list of (state, ref or Panic/None)."""
    v = rd(en, st, r)
    text = isinstance(v, T)
    if text:
        v = en.tbytes(v)
    n = en.slen(v)
    rg = range_of(en, st, ix, n)
    out = []

    def bad(s, msg):
        out.append((s, none(en, opt) if opt is not None else Panic(msg)))

    def good(s, x):
        out.append((s, some(en, opt, x) if opt is not None else x))

    if rg is None:
        i = ints(en, st, ix)
        for s, ok in en.fork(st, ("ge", add(sub(n, i), -1))):
            if not ok:
                bad(s, "index out of bounds")
                continue
            for s2, j in elem_index(en, s, v, i):
                good(s2, elem_ref(r, j))
        return out
    a, b = rg
    for s, ok in en.fork(st, ("ge", sub(b, a))):
        if not ok:
            bad(s, "slice start after its end")
            continue
        for s2, ok2 in en.fork(s, ("ge", sub(n, b))):
            if not ok2:
                bad(s2, "slice end out of range")
                continue
            base, st0 = slice_base(r)
            ln = s2.simp(sub(b, a))
            if any(x[0] != "e" for x in v.segs) or (isinstance(s2.simp(a), int) and isinstance(ln, int)):
                good(s2, R(base.cell, base.path + (("sl", s2.simp(add(st0, a)), ln),)))
            else:
                for s3, x in concretise(en, s2, a, add(n, 1)):
                    for s4, y in concretise(en, s3, b, add(n, 1)):
                        good(s4, R(base.cell, base.path + (("sl", add(st0, x), y - x),)))
    return out


@model(r"core::slice::<impl \[T\]>::(get|get_mut)", r"core::str::<impl str>::get")
def slice_get(en, st, args, dty):
    r = ref(en, st, args[0])
    return index_ref(en, st, r, args[1], None, dty)


@model(r"core::slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)")
def slice_get_unchecked(en, st, args, dty):
    r = ref(en, st, args[0])
    return [(s, x if not isinstance(x, Panic) else Panic("out-of-bounds access through get_unchecked")) for s, x in index_ref(en, st, r, args[1], dty, None)]


@model(r"core::slice::<impl \[T\]>::(first|last|first_mut|last_mut)")
def slice_first(en, st, args, dty):
    r = ref(en, st, args[0])
    n = en.slen(seq(en, st, r))
    out = []
    for s, ok in en.fork(st, ("ge", add(n, -1))):
        if ok:
            out.append((s, some(en, dty, elem_ref(r, s.simp(add(n, -1)) if "last" in name_cur(en) else 0))))
        else:
            out.append((s, none(en, dty)))
    return out


@model(r"core::slice::<impl \[T\]>::(split_first|split_last)")
def slice_split_first(en, st, args, dty):
    r = ref(en, st, args[0])
    n = en.slen(seq(en, st, r))
    tup = en.types[dty]["args"][0]
    out = []
    for s, ok in en.fork(st, ("ge", add(n, -1))):
        if ok:
            m = s.simp(add(n, -1))
            b, s0 = slice_base(r)
            if "split_last" in name_cur(en):
                v = (elem_ref(r, m), R(b.cell, b.path + (("sl", s0, m),)))
            else:
                v = (elem_ref(r, 0), R(b.cell, b.path + (("sl", add(s0, 1), m),)))
            out.append((s, some(en, dty, A(tup, 0, v))))
        else:
            out.append((s, none(en, dty)))
    return out


@model(r"core::slice::<impl \[T\]>::(split_at|split_at_mut)")
def slice_split_at(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    n = en.slen(v)
    i = ints(en, st, args[1])
    out = []
    for s, ok in en.fork(st, ("ge", sub(n, i))):
        if not ok:
            out.append((s, Panic("split_at past the end")))
            continue
        for s2, j in split_states(en, s, v, i):
            b, s0 = slice_base(r)
            out.append((s2, A(dty, 0, (R(b.cell, b.path + (("sl", s0, j),)), R(b.cell, b.path + (("sl", add(s0, j), s2.simp(sub(n, j))),))))))
    return out


@model(r"core::slice::<impl \[T\]>::swap")
def slice_swap(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    n = en.slen(v)
    i, j = ints(en, st, args[1]), ints(en, st, args[2])
    out = []
    for s, ok in en.fork(st, ("ge", add(sub(n, i), -1))):
        if not ok:
            out.append((s, Panic("index out of bounds")))
            continue
        for s2, ok2 in en.fork(s, ("ge", add(sub(n, j), -1))):
            if not ok2:
                out.append((s2, Panic("index out of bounds")))
                continue
            for s3, a in elem_index(en, s2, v, i):
                for s4, b in elem_index(en, s3, v, j):
                    x, y = en.sget(s4, v, a), en.sget(s4, v, b)
                    wr(en, s4, r, en.sset(s4, en.sset(s4, v, a, y), b, x))
                    out.append((s4, unit(en, dty)))
    return out


@model(r"core::slice::<impl \[T\]>::reverse")
def slice_reverse(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    if any(s[0] != "e" for s in v.segs):
        raise Und("reverse")
    wr(en, st, r, S(tuple(reversed(v.segs))))
    return unit(en, dty)


@model(r"core::slice::<impl \[T\]>::(rotate_left|rotate_right)")
def slice_rotate(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    k = ints(en, st, args[1])
    n = en.slen(v)
    out = []
    left = name_cur(en).endswith("left")
    for s, ok in en.fork(st, ("ge", sub(n, k))):
        if not ok:
            out.append((s, Panic("rotation beyond the length")))
            continue
        for s2, j in split_states(en, s, v, k):
            l, rr = en.ssplit(s2, v, j if left else sub(n, j))
            wr(en, s2, r, S(rr.segs + l.segs))
            out.append((s2, unit(en, dty)))
    return out


@model(r"core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)")
def slice_copy_from(en, st, args, dty):
    r = ref(en, st, args[0])
    v, w = seq(en, st, r), seq(en, st, args[1])
    out = []
    for s, ok in en.fork(st, ("eq", sub(en.slen(v), en.slen(w)))):
        if ok:
            wr(en, s, r, w)
            out.append((s, unit(en, dty)))
        else:
            out.append((s, Panic("copy_from_slice length mismatch")))
    return out


@model(r"core::slice::<impl \[T\]>::fill")
def slice_fill(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    wr(en, st, r, repeat(args[1], st.simp(en.slen(v))))
    return unit(en, dty)


@model(r"std::slice::<impl \[T\]>::(to_vec|into_vec|to_owned)", r"alloc::slice::<impl \[T\]>::(to_vec|into_vec|to_vec_in)", r"<T as std::slice::<impl \[T\]>::to_vec_in::ConvertVec>::to_vec",
       r"alloc::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned", r"std::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned",
       r"<std::vec::Vec<T, A> as std::clone::Clone>::clone", r"<std::vec::Vec<T> as std::convert::From<.*>>::from", r"core::array::<impl std::clone::Clone for \[T; N\]>::clone",
       r"<std::boxed::Box<\[T\], A> as std::clone::Clone>::clone")
def to_vec(en, st, args, dty):
    v = rd(en, st, args[0])
    if isinstance(v, T):
        v = en.tbytes(v)
    if not isinstance(v, S):
        raise Und("to_vec of %r" % (v,))
    return v


@model(r"std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit|shrink_to)")
def vec_reserve(en, st, args, dty):
    if "reserve" in name_cur(en):
        st.ev = st.ev + (("alloc", ints(en, st, args[1]), "reserve"),)
    return unit(en, dty)


@model(r"std::vec::Vec::<T, A>::capacity")
def vec_capacity(en, st, args, dty):
    return en.opaque(st, dty, ("havoc", "cap", st.fresh()))


@model(r"std::vec::Vec::<T, A>::split_off")
def vec_split_off(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    i = ints(en, st, args[1])
    out = []
    for s, ok in en.fork(st, ("ge", sub(en.slen(v), i))):
        if not ok:
            out.append((s, Panic("split_off past the end")))
            continue
        for s2, j in split_states(en, s, v, i):
            l, rr = en.ssplit(s2, v, j)
            wr(en, s2, r, l)
            out.append((s2, rr))
    return out


@model(r"std::vec::Vec::<T, A>::drain")
def vec_drain(en, st, args, dty):
    r = ref(en, st, args[0])
    v = seq(en, st, r)
    n = en.slen(v)
    a, b = range_of(en, st, args[1], n)
    out = []
    for s, ok in en.fork(st, ("ge", sub(b, a))):
        if not ok:
            out.append((s, Panic("drain start after its end")))
            continue
        for s2, ok2 in en.fork(s, ("ge", sub(n, b))):
            if not ok2:
                out.append((s2, Panic("drain end out of range")))
                continue
            for s3, x in split_states(en, s2, v, a):
                for s4, y in split_states(en, s3, v, b):
                    l, rr = en.ssplit(s4, v, x)
                    m, rr = en.ssplit(s4, rr, sub(y, x))
                    wr(en, s4, r, en.scat(l, rr))
                    out.append((s4, N("viter", m, 0)))
    return out


@model(r"core::slice::<impl \[T\]>::contains")
def slice_contains(en, st, args, dty):
    v = seq(en, st, args[0])
    x = rd(en, st, args[1])
    k = None
    for s in v.segs:
        if s[0] != "e":
            raise Und("contains")
        c = en.compare(st, "Eq", s[1], x)
        c = en.as_cond(c)
        k = c if k is None else ("or", k, c)
    return 0 if k is None else en.mkb(st, k)


# ------------------------------------------------------------------ boxes


@model(r"std::boxed::Box::<T>::new", r"std::rc::Rc::<T>::new")
def box_new(en, st, args, dty):
    t = en.types[dty]
    r = en.alloc(st, args[0], t["args"][0])
    return E.wrap_ptr(en, dty, r)


@model(r"std::boxed::Box::<T>::new_uninit")
def box_new_uninit(en, st, args, dty):
    """The storage of vec![...]: a union whose value is written field by field."""
    t = en.types[dty]["args"][0]
    r = en.alloc(st, A(t, 0, (A(None, 0, ()), A(None, 0, (None,)))), t)
    return E.wrap_ptr(en, dty, r)


@model(r"std::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(en, st, args, dty):
    p = E.unwrap_ptr(args[0])
    v = en.read(st, p.cell, p.path)
    v = v.f[1].f[0] if isinstance(v, A) and len(v.f) > 1 and isinstance(v.f[1], A) else None
    if isinstance(v, T):
        v = en.tbytes(v)
    if not isinstance(v, S):
        raise Und("vec! of %r" % (v,))
    st.ev = st.ev + (("alloc", en.slen(v), "vec!"),)
    return v


@model(r"<std::boxed::Box<T, A> as std::ops::Drop>::drop", r"std::mem::forget", r"std::mem::drop")
def drop_noop(en, st, args, dty):
    return unit(en, dty)


@model(r"<std::boxed::Box<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?", r"<std::boxed::Box<T, A> as std::convert::As(Ref|Mut)<T>>::as_(ref|mut)")
def box_deref(en, st, args, dty):
    v = en.read(st, args[0].cell, args[0].path)
    p = E.unwrap_ptr(v)
    if isinstance(p, R):
        return p
    raise Und("box")


# ------------------------------------------------------------------ slice and vector iterators


@model(r"core::slice::<impl \[T\]>::(iter|iter_mut)", r"core::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter",
       r"<&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", r"std::vec::<impl std::iter::IntoIterator for &'a (mut )?std::vec::Vec<T, A>>::into_iter",
       r"core::array::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter", r"std::slice::Iter::<'a, T>::new")
def slice_iter(en, st, args, dty):
    r = ref(en, st, args[0])
    n = st.simp(en.slen(seq(en, st, r)))
    return N("siter", r, 0, n)


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::next")
def siter_next(en, st, args, dty):
    it = ref(en, st, args[0])
    v = rd(en, st, it)
    if isinstance(v, R):
        raise Und("iterator")
    r, i, n = v.f
    out = []
    for s, b in en.fork(st, ("ge", add(sub(n, i), -1))):
        if b:
            wr(en, s, it, N("siter", r, s.simp(add(i, 1)), n))
            out.append((s, some(en, dty, elem_ref(r, s.simp(i)))))
        else:
            out.append((s, none(en, dty)))
    return out


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def siter_next_back(en, st, args, dty):
    it = ref(en, st, args[0])
    r, i, n = rd(en, st, it).f
    out = []
    for s, b in en.fork(st, ("ge", add(sub(n, i), -1))):
        if b:
            m = s.simp(add(n, -1))
            wr(en, s, it, N("siter", r, i, m))
            out.append((s, some(en, dty, elem_ref(r, m))))
        else:
            out.append((s, none(en, dty)))
    return out


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::ExactSizeIterator>::len", r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::count")
def siter_len(en, st, args, dty):
    v = rd(en, st, args[0])
    return st.simp(sub(v.f[2], v.f[1]))


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::size_hint")
def siter_hint(en, st, args, dty):
    v = rd(en, st, args[0])
    n = st.simp(sub(v.f[2], v.f[1]))
    return A(dty, 0, (n, some(en, en.types[dty]["tys"][1], n)))


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::__iterator_get_unchecked")
def siter_unchecked(en, st, args, dty):
    v = rd(en, st, args[0])
    return elem_ref(v.f[0], st.simp(add(v.f[1], ints(en, st, args[1]))))


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::last")
def siter_last(en, st, args, dty):
    r, i, n = rd(en, st, args[0]).f
    out = []
    for s, b in en.fork(st, ("ge", add(sub(n, i), -1))):
        out.append((s, some(en, dty, elem_ref(r, s.simp(add(n, -1)))) if b else none(en, dty)))
    return out


@model(r"std::slice::Iter::<'a, T>::as_slice")
def siter_slice(en, st, args, dty):
    v = rd(en, st, args[0])
    return slice_of(en, st, v.f[0], v.f[1], sub(v.f[2], v.f[1]))


@model(r"<std::slice::Iter(Mut)?<'_?a?, T> as std::clone::Clone>::clone", r"<std::slice::Iter<'_, T> as std::clone::Clone>::clone")
def siter_clone(en, st, args, dty):
    return rd(en, st, args[0])


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::nth")
def siter_nth(en, st, args, dty):
    it = ref(en, st, args[0])
    r, i, n = rd(en, st, it).f
    k = ints(en, st, args[1])
    out = []
    for s, b in en.fork(st, ("ge", add(sub(sub(n, i), k), -1))):
        if b:
            j = s.simp(add(i, k))
            wr(en, s, it, N("siter", r, s.simp(add(j, 1)), n))
            out.append((s, some(en, dty, elem_ref(r, j))))
        else:
            wr(en, s, it, N("siter", r, n, n))
            out.append((s, none(en, dty)))
    return out


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::DoubleEndedIterator>::nth_back")
def siter_nth_back(en, st, args, dty):
    it = ref(en, st, args[0])
    r, i, n = rd(en, st, it).f
    k = ints(en, st, args[1])
    out = []
    for s, b in en.fork(st, ("ge", add(sub(sub(n, i), k), -1))):
        if b:
            j = s.simp(add(sub(n, k), -1))
            wr(en, s, it, N("siter", r, i, j))
            out.append((s, some(en, dty, elem_ref(r, j))))
        else:
            wr(en, s, it, N("siter", r, i, i))
            out.append((s, none(en, dty)))
    return out


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::last")
def siter_last(en, st, args, dty):
    r, i, n = args[0].f
    out = []
    for s, b in en.fork(st, ("ge", add(sub(n, i), -1))):
        out.append((s, some(en, dty, elem_ref(r, s.simp(add(n, -1)))) if b else none(en, dty)))
    return out


@model(r"core::slice::<impl \[T\]>::(chunks|chunks_exact|windows)")
def slice_chunks(en, st, args, dty):
    r = ref(en, st, args[0])
    n = st.simp(en.slen(seq(en, st, r)))
    k = st.simp(ints(en, st, args[1]))
    if not isinstance(k, int):
        raise Und("chunk size")
    if k == 0:
        return Panic("chunk size must be non-zero")
    return N(name_cur(en).split("::")[-1], r, 0, n, k)


@model(r"<std::slice::(Chunks|ChunksExact|Windows)<'a, T> as std::iter::Iterator>::next")
def chunks_next(en, st, args, dty):
    it = ref(en, st, args[0])
    v = rd(en, st, it)
    r, i, n, k = v.f
    out = []
    step = 1 if v.kind == "windows" else k
    for s, b in en.fork(st, ("ge", sub(sub(n, i), k))):
        if b:
            wr(en, s, it, N(v.kind, r, s.simp(add(i, step)), n, k))
            out.append((s, some(en, dty, slice_of(en, s, slice_base(r)[0], add(slice_base(r)[1], i), k))))
        elif v.kind != "chunks":
            out.append((s, none(en, dty)))
        else:
            for s2, b2 in en.fork(s, ("ge", add(sub(n, i), -1))):
                if b2:
                    wr(en, s2, it, N(v.kind, r, n, n, k))
                    out.append((s2, some(en, dty, slice_of(en, s2, slice_base(r)[0], add(slice_base(r)[1], i), sub(n, i)))))
                else:
                    out.append((s2, none(en, dty)))
    return out


@model(r"<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", r"core::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter",
       r"<std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter")
def vec_into_iter(en, st, args, dty):
    return N("viter", args[0], 0)


def vrest(en, st, it):
    """What an owning iterator still has to give."""
    v, i = it.f
    if i == 0:
        return v
    return en.ssplit(st, v, i)[1]


@model(r"<std::vec::(IntoIter<T, A>|Drain<'_, T, A>) as std::iter::Iterator>::next", r"<std::array::IntoIter<T, N> as std::iter::Iterator>::next")
def viter_next(en, st, args, dty):
    it = ref(en, st, args[0])
    v, i = rd(en, st, it).f
    out = []
    for s, b in en.fork(st, ("ge", add(sub(en.slen(v), i), -1))):
        if not b:
            out.append((s, none(en, dty)))
            continue
        for s2, j in elem_index(en, s, v, i):
            x = en.sget(s2, v, j)
            wr(en, s2, it, N("viter", v, s2.simp(add(i, 1))))
            out.append((s2, some(en, dty, x)))
    return out


@model(r"<std::vec::(IntoIter<T, A>|Drain<'_, T, A>) as std::iter::DoubleEndedIterator>::next_back", r"<std::array::IntoIter<T, N> as std::iter::DoubleEndedIterator>::next_back")
def viter_next_back(en, st, args, dty):
    it = ref(en, st, args[0])
    v, i = rd(en, st, it).f
    out = []
    for s, b in en.fork(st, ("ge", add(sub(en.slen(v), i), -1))):
        if not b:
            out.append((s, none(en, dty)))
            continue
        n1 = add(en.slen(v), -1)
        for s2, j in elem_index(en, s, v, n1):
            x = en.sget(s2, v, j)
            wr(en, s2, it, N("viter", en.ssplit(s2, v, n1)[0], i))
            out.append((s2, some(en, dty, x)))
    return out


@model(r"<std::vec::(IntoIter<T, A>|Drain<'_, T, A>) as std::iter::Iterator>::size_hint", r"<std::array::IntoIter<T, N> as std::iter::Iterator>::size_hint")
def viter_hint(en, st, args, dty):
    it = rd(en, st, args[0])
    n = st.simp(sub(en.slen(it.f[0]), it.f[1]))
    return A(dty, 0, (n, some(en, en.types[dty]["tys"][1], n)))


@model(r"<std::vec::(IntoIter<T, A>|Drain<'_, T, A>) as std::iter::Iterator>::count", r"<std::array::IntoIter<T, N> as std::iter::Iterator>::count")
def viter_count(en, st, args, dty):
    return st.simp(sub(en.slen(args[0].f[0]), args[0].f[1]))


@model(r"<std::vec::(IntoIter<T, A>|Drain<'_, T, A>) as std::iter::ExactSizeIterator>::len", r"<std::array::IntoIter<T, N> as std::iter::ExactSizeIterator>::len")
def viter_len(en, st, args, dty):
    it = rd(en, st, args[0])
    return st.simp(sub(en.slen(it.f[0]), it.f[1]))


# ------------------------------------------------------------------ eager consumers


def consume_body(en, it_ty, opt_ty, item_ty, acc_ty, nxt, step, ret_ty, finish=None):
    """loop { match next(&mut it) { Some(x) => step, None => return acc } } as a body.
    locals: 0 ret, 1 it, 2 acc, 3 option, 4 discr, 5 item, 6 unit, 7 ref to it"""
    raise NotImplementedError


def mk_body(locals_, blocks, argc):
    return {"locals": locals_, "blocks": blocks, "argc": argc, "spread": -1, "heads": None, "names": {}, "span": ""}


def loc(n, *proj):
    return [n, list(proj)]


def next_call(en, it, dest, target, nxt, otys):
    """A call of `next` on the iterator in local `it` (through a reference local)."""
    return ["call", nxt, None, [["copy", loc(it)]], loc(dest), target, "", "std::iter::Iterator::next", list(otys), -1]


def next_types(en, nxt):
    """(option type, item type) of a `next` instance."""
    inst = en.insts[nxt]
    ty = inst["ret"]
    if ty < 0:
        raise Und("iterator item type")
    return ty, en.types[ty]["args"][0]


def find_ref_ty(en, ty):
    return en.by_s.get("&mut " + en.types[ty]["s"], ty)


USIZE = "usize"


def py(fn):
    return fn


def build_consumer(en, st, it, it_ty, nxt, init, acc_ty, on_item, ret_ty, extra=(), extra_tys=()):
    """A synthetic body: it = args[0]; acc = args[1]; loop over items applying `on_item`, a Python
    transfer function (en, st, [acc_ref, item, *extra], dty) -> value of a control local: 0 continue, 1 stop.
    Returns acc."""
    opt, item = next_types(en, nxt)
    it_cell_ty = it_ty
    key = ("cons", nxt, acc_ty, id(on_item), ret_ty, tuple(extra_tys))
    cache = en.__dict__.setdefault("_synth", {})
    if key not in cache:
        us = en.by_s.get("usize", 0)
        n0 = 8
        L_ = [ret_ty, it_cell_ty, acc_ty, opt, us, item, us, us] + list(extra_tys)
        ov = dict((v["name"], i) for i, v in enumerate(en.types[opt]["variants"]))
        ex = [["copy", loc(n0 + i)] for i in range(len(extra_tys))]
        if en.types[it_ty]["k"] == "ref":
            start = ["=", loc(7), ["use", ["copy", loc(1)]], ""]
        else:
            start = ["=", loc(7), ["addr", loc(1)], ""]
        blocks = [
            {"s": [start], "t": ["goto", 1]},
            {"s": [], "t": next_call(en, 7, 3, 2, nxt, [])},
            {"s": [["=", loc(4), ["discr", loc(3)], ""]], "t": ["switch", ["copy", loc(4)], [[0, 5]], 3]},
            {"s": [["=", loc(5), ["use", ["copy", loc(3, ["d", ov["Some"]], ["f", 0, item])]], ""], ["=", loc(6), ["addr", loc(2)], ""]],
             "t": ["call", on_item, None, [["copy", loc(6)], ["copy", loc(5)]] + ex, loc(4), 4, "", None, [], -1]},
            {"s": [], "t": ["switch", ["copy", loc(4)], [[0, 1]], 5]},
            {"s": [["=", loc(0), ["use", ["copy", loc(2)]], ""]], "t": ["return"]},
        ]
        cache[key] = mk_body(L_, blocks, 0)
    # arguments are placed at locals 1..: it, acc, then the extras from 8 on
    args = [it, init, None, None, None, None, None] + list(extra)
    return Inline(cache[key], [x for x in args])


def push_item(en, st, args, dty):
    r = args[0]
    v = en.read(st, r.cell, r.path)
    en.write(st, r.cell, r.path, S(v.segs + (("e", args[1]),)))
    return 0


def copied_push(en, st, args, dty):
    r = args[0]
    v = en.read(st, r.cell, r.path)
    en.write(st, r.cell, r.path, S(v.segs + (("e", rd(en, st, args[1])),)))
    return 0


@model(r"<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", r"<std::vec::Vec<T> as std::vec::spec_from_iter::SpecFromIter<T, I>>::from_iter")
def vec_from_iter(en, st, args, dty):
    it = args[0]
    if isinstance(it, N) and it.kind == "viter":
        return vrest(en, st, it)
    nxt = en.cur[3]
    if nxt is None or nxt < 0:
        raise Und("collect")
    ity = iter_type(en)
    return build_consumer(en, st, it, ity, nxt, S(()), dty, push_item, dty)


def iter_type(en):
    o = en.cur[2]
    if not o:
        raise Und("iterator type")
    nxt = en.cur[3]
    return o[-1] if len(o) > 1 else o[0]


@model(r"<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend", r"<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend")
def vec_extend(en, st, args, dty):
    r = ref(en, st, args[0])
    it = args[1]
    v = seq(en, st, r)
    if isinstance(it, S):
        wr(en, st, r, en.scat(v, it))
        return unit(en, dty)
    if isinstance(it, N) and it.kind == "viter":
        wr(en, st, r, en.scat(v, vrest(en, st, it)))
        return unit(en, dty)
    if isinstance(it, R):
        w = seq(en, st, it)
        wr(en, st, r, en.scat(v, w))
        return unit(en, dty)
    if isinstance(it, N) and it.kind == "siter":
        w = seq(en, st, it.f[0])
        _, w2 = en.ssplit(st, w, it.f[1])
        w2, _ = en.ssplit(st, w2, sub(it.f[2], it.f[1]))
        wr(en, st, r, en.scat(v, w2))
        return unit(en, dty)
    nxt = en.cur[3]
    if nxt is None or nxt < 0:
        raise Und("extend")
    opt, item = next_types(en, nxt)
    copied = "&'a T" in name_cur(en)

    def step(en, st, a, d):
        q = a[2]
        v = en.read(st, q.cell, q.path)
        x = rd(en, st, a[1]) if copied else a[1]
        en.write(st, q.cell, q.path, S(v.segs + (("e", x),)))
        return 0

    fn = en.__dict__.setdefault("_ext_step%d" % copied, step)
    return build_consumer(en, st, it, iter_type(en), nxt, A(dty, 0, ()), dty, fn, dty, (r,), (en.by_s.get("usize", 0),))


@model(r"<std::result::Result<V, E> as std::iter::FromIterator<std::result::Result<\w+, E>>>::from_iter")
def result_from_iter(en, st, args, dty):
    it = args[0]
    nxt = en.cur[3]
    if nxt is None or nxt < 0:
        raise Und("collect")
    vec_ty = en.types[dty]["variants"][en.variant_index(dty, "Ok")]["fields"][0][1]
    if en.types[vec_ty].get("name") != "std::vec::Vec":
        raise Und("collect into %s" % en.types[dty]["s"])

    def step(en, st, a, d):
        r, x = a[0], a[1]
        cur = en.read(st, r.cell, r.path)
        vs = cases(en, st, x)
        out = []
        for s, y in vs:
            nm = en.types[y.ty]["variants"][y.v]["name"]
            if nm == "Ok":
                en.write(s, r.cell, r.path, A(cur.ty, cur.v, (S(cur.f[0].segs + (("e", y.f[0]),)),)))
                out.append((s, 0))
            else:
                en.write(s, r.cell, r.path, enum(en, cur.ty, "Err", y.f[0]))
                out.append((s, 1))
        return out

    fn = en.__dict__.setdefault("_resfi", step)
    return build_consumer(en, st, it, iter_type(en), nxt, enum(en, dty, "Ok", S(())), dty, fn, dty)


def cases(en, st, x):
    """Case split of an enum value."""
    if isinstance(x, A):
        return [(st, x)]
    if isinstance(x, O):
        t = en.types[x.ty]
        a = en.odiscr(st, x)
        out = []
        for i in range(len(t["variants"])):
            s = st.copy()
            try:
                en.assume(s, ("eq", add(la(a), -i)))
            except Infeasible:
                continue
            s.nf += 1
            out.append((s, en.expand(s, x, i)))
        return out
    raise Und("cases of %r" % (x,))


@model(r"std::iter::Iterator::(by_ref)")
def by_ref(en, st, args, dty):
    return args[0]


@model(r"<std::vec::(IntoIter|Drain)<.*> as std::ops::Drop>::drop")
def iter_drop(en, st, args, dty):
    return unit(en, dty)


# closures applied by consumers: fold, for_each, any, all, position, count, ...


def closure_consumer(kind):
    def m(en, st, args, dty):
        nxt = en.cur[3]
        if nxt is None or nxt < 0:
            # the native iterators themselves
            raise Und("iterator consumer " + name_cur(en))
        opt, item = next_types(en, nxt)
        return synth_closure(en, st, kind, args, dty, nxt, opt, item)

    return m


def synth_closure(en, st, kind, args, dty, nxt, opt, item):
    us = en.by_s.get("usize", 0)
    bl = en.by_s.get("bool", us)
    fv = args[-1]
    it = args[0]
    byref = isinstance(it, R) or kind in ("any", "all", "position", "find", "try_fold")
    cl_ty = fv.ty if isinstance(fv, A) else None
    if cl_ty is None:
        raise Und("closure value")
    key = ("cl", kind, nxt, cl_ty, dty)
    cache = en.__dict__.setdefault("_synth", {})
    if key not in cache:
        ov = dict((v["name"], i) for i, v in enumerate(en.types[opt]["variants"]))
        it_ty = en.cur[2][0] if en.cur[2] else us
        # 0 ret 1 it 2 init/acc 3 closure 4 opt 5 discr 6 item 7 ref it 8 ref closure 9 tuple 10 result 11 counter 12 ref item
        L_ = [dty, it_ty, dty, cl_ty, opt, us, item, us, us, us, dty, us, us]
        blocks = [
            {"s": [["=", loc(7), ["use", ["copy", loc(1)]], ""] if byref else ["=", loc(7), ["addr", loc(1)], ""],
                   ["=", loc(8), ["addr", loc(3)], ""],
                   ["=", loc(11), ["use", ["const", us, {"v": "int", "x": 0}]], ""]], "t": ["goto", 1]},
            {"s": [], "t": next_call(en, 7, 4, 2, nxt, [])},
            {"s": [["=", loc(5), ["discr", loc(4)], ""]], "t": ["switch", ["copy", loc(5)], [[0, 6]], 3]},
        ]
        take = ["=", loc(6), ["use", ["copy", loc(4, ["d", ov["Some"]], ["f", 0, item])]], ""]

        def callc(argl, dest, target):
            return ["call", pycall, None, [["copy", loc(8)]] + argl, dest, target, "", None, [], -1]

        if kind == "fold":
            blocks += [
                {"s": [take], "t": ["callcl", 8, [["copy", loc(2)], ["copy", loc(6)]], loc(2), 1]},
                None, None,
                {"s": [["=", loc(0), ["use", ["copy", loc(2)]], ""]], "t": ["return"]},
            ]
        elif kind == "for_each":
            blocks += [
                {"s": [take], "t": ["callcl", 8, [["copy", loc(6)]], loc(10), 1]},
                None, None,
                {"s": [["=", loc(0), ["agg", ["tuple"], []], ""]], "t": ["return"]},
            ]
        elif kind in ("any", "all"):
            one = ["const", bl, {"v": "int", "x": 1}]
            zero = ["const", bl, {"v": "int", "x": 0}]
            blocks += [
                {"s": [take], "t": ["callcl", 8, [["copy", loc(6)]], loc(10), 4]},
                {"s": [], "t": ["switch", ["copy", loc(10)], [[0, 1 if kind == "any" else 5]], 5 if kind == "any" else 1]},
                {"s": [["=", loc(0), ["use", one if kind == "any" else zero], ""]], "t": ["return"]},
                {"s": [["=", loc(0), ["use", zero if kind == "any" else one], ""]], "t": ["return"]},
            ]
            L_[10] = bl
        elif kind == "position":
            od = dict((v["name"], i) for i, v in enumerate(en.types[dty]["variants"]))
            blocks += [
                {"s": [take], "t": ["callcl", 8, [["copy", loc(6)]], loc(10), 4]},
                {"s": [], "t": ["switch", ["copy", loc(10)], [[0, 7]], 5]},
                {"s": [["=", loc(0), ["agg", ["adt", dty, od["Some"], -1], [["copy", loc(11)]]], ""]], "t": ["return"]},
                {"s": [["=", loc(0), ["agg", ["adt", dty, od["None"], -1], []], ""]], "t": ["return"]},
                {"s": [["=", loc(11), ["bin", "AddUnchecked", ["copy", loc(11)], ["const", us, {"v": "int", "x": 1}]], ""]], "t": ["goto", 1]},
            ]
            L_[10] = bl
        elif kind == "rposition":
            od = dict((v["name"], i) for i, v in enumerate(en.types[dty]["variants"]))
            blocks = [
                {"s": [["=", loc(7), ["use", ["copy", loc(1)]], ""], ["=", loc(8), ["addr", loc(3)], ""]], "t": ["call", siter_len, None, [["copy", loc(7)]], loc(11), 1]},
                {"s": [], "t": ["call", siter_next_back, None, [["copy", loc(7)]], loc(4), 2]},
                blocks[2],
                {"s": [take, ["=", loc(11), ["bin", "SubUnchecked", ["copy", loc(11)], ["const", us, {"v": "int", "x": 1}]], ""]], "t": ["callcl", 8, [["copy", loc(6)]], loc(10), 4]},
                {"s": [], "t": ["switch", ["copy", loc(10)], [[0, 1]], 5]},
                {"s": [["=", loc(0), ["agg", ["adt", dty, od["Some"], -1], [["copy", loc(11)]]], ""]], "t": ["return"]},
                {"s": [["=", loc(0), ["agg", ["adt", dty, od["None"], -1], []], ""]], "t": ["return"]},
            ]
            L_[10] = bl
        elif kind == "find":
            od = dict((v["name"], i) for i, v in enumerate(en.types[dty]["variants"]))
            blocks += [
                {"s": [take, ["=", loc(12), ["addr", loc(6)], ""]], "t": ["callcl", 8, [["copy", loc(12)]], loc(10), 4]},
                {"s": [], "t": ["switch", ["copy", loc(10)], [[0, 1]], 5]},
                {"s": [["=", loc(0), ["agg", ["adt", dty, od["Some"], -1], [["copy", loc(6)]]], ""]], "t": ["return"]},
                {"s": [["=", loc(0), ["agg", ["adt", dty, od["None"], -1], []], ""]], "t": ["return"]},
            ]
            L_[10] = bl
        else:
            raise Und(kind)
        blocks = [b or {"s": [], "t": ["unreachable"]} for b in blocks]
        cache[key] = mk_body(L_, blocks, 0)
    init = args[1] if kind == "fold" else None
    return Inline(cache[key], [it, init, fv])


def pycall(*a):
    raise Und("closure call")


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::rposition")
def siter_rposition(en, st, args, dty):
    return closure_consumer("rposition")(en, st, args, dty)


IT = r"<.* as std::iter::Iterator>::"
for _k in ("fold", "for_each", "any", "all", "position", "find"):
    TABLE.append((re.compile(r"^(?:(?:<std::(?:slice|vec|array|ops)::.* as std::iter::Iterator>|std::(?:slice|iter|ops|array|str|vec)::.*|<std::iter::(?:Enumerate|Map|Rev|Copied|Cloned|Zip|Take|Skip|Chain|Filter|StepBy|Peekable).* as std::iter::Iterator>|std::iter::Iterator)::%s)$" % _k), closure_consumer(_k)))


# ------------------------------------------------------------------ strings


@model(r"std::string::String::new", r"<std::string::String as std::default::Default>::default", r"std::string::String::with_capacity")
def string_new(en, st, args, dty):
    return T(())


@model(r"std::string::String::push")
def string_push(en, st, args, dty):
    r = ref(en, st, args[0])
    v = rd(en, st, r)
    c = st.simp(ints(en, st, args[1]))
    wr(en, st, r, E.tnorm(v.p + (("ch", c),)))
    return unit(en, dty)


@model(r"std::string::String::push_str", r"<std::string::String as std::ops::AddAssign<&str>>::add_assign")
def string_push_str(en, st, args, dty):
    r = ref(en, st, args[0])
    v = rd(en, st, r)
    w = rd(en, st, args[1])
    wr(en, st, r, E.tnorm(v.p + w.p))
    return unit(en, dty)


@model(r"<std::string::String as std::ops::Add<&str>>::add")
def string_add(en, st, args, dty):
    return E.tnorm(args[0].p + rd(en, st, args[1]).p)


@model(r"std::str::<impl std::borrow::ToOwned for str>::to_owned", r"<str as std::string::SpecToString>::spec_to_string", r"<T as std::string::ToString>::to_string",
       r"<std::string::String as std::convert::From<&(mut )?str>>::from", r"alloc::str::<impl str>::(into_string|to_owned)", r"<std::string::String as std::clone::Clone>::clone",
       r"alloc::str::<impl std::borrow::ToOwned for str>::to_owned", r"<std::string::String as std::string::SpecToString>::spec_to_string")
def to_string(en, st, args, dty):
    v = rd(en, st, args[0])
    while isinstance(v, R):
        v = rd(en, st, v)
    if isinstance(v, N) and v.kind == "lossy":
        v = v.f[0]
    if isinstance(v, T):
        return v
    raise Und("to_string")


@model(r"core::str::<impl str>::parse", r"core::num::imp::flt2dec::.*", r"<f(32|64) as std::str::FromStr>::from_str", r"core::num::.*<impl std::str::FromStr for f(32|64)>::from_str")
def str_parse(en, st, args, dty):
    v = rd(en, st, args[0])
    okty = en.types[dty]["variants"][en.variant_index(dty, "Ok")]["fields"][0][1]
    errty = en.types[dty]["variants"][en.variant_index(dty, "Err")]["fields"][0][1]
    t = en.types[okty]
    if t["k"] != "float":
        raise Und("parse")
    v = E.parsed_text(st, v)
    a = la(atom(("in", ("parses", v)), 0, 1))
    known = None if any(not isinstance(p, str) for p in v.p) else E.parse_float("".join(v.p)) is not None
    out = []
    for s, ok in [(st, known)] if known is not None else en.fork(st, ("eq", add(a, -1))):
        if ok:
            out.append((s, enum(en, dty, "Ok", F(("in", t["bits"], ("parse", v))))))
        else:
            out.append((s, enum(en, dty, "Err", O(errty, ("parse error", v)))))
    return out


@model(r"std::string::String::from_utf8")
def from_utf8(en, st, args, dty):
    v = args[0]
    okty = en.types[dty]["variants"][en.variant_index(dty, "Ok")]["fields"][0][1]
    errty = en.types[dty]["variants"][en.variant_index(dty, "Err")]["fields"][0][1]
    a = la(atom(("in", ("utf8", v)), 0, 1))
    out = []
    for s, ok in en.fork(st, ("eq", add(a, -1))):
        if ok:
            out.append((s, enum(en, dty, "Ok", T((("x", ("text", v)),)))))
        else:
            out.append((s, enum(en, dty, "Err", N("utf8err", v))))
    return out


@model(r"core::str::(converts::)?from_utf8", r"core::str::<impl str>::from_utf8", r"std::str::from_utf8")
def str_from_utf8(en, st, args, dty):
    v = seq(en, st, args[0])
    errty = en.types[dty]["variants"][en.variant_index(dty, "Err")]["fields"][0][1]
    a = la(atom(("in", ("utf8", v)), 0, 1))
    out = []
    for s, ok in en.fork(st, ("eq", add(a, -1))):
        if ok:
            t = T((("x", ("text", v)),))
            c = ("t", t)
            s.mem[c] = t
            out.append((s, enum(en, dty, "Ok", R(c))))
        else:
            out.append((s, enum(en, dty, "Err", N("utf8err", v))))
    return out


@model(r"std::string::FromUtf8Error::into_bytes")
def utf8err_into(en, st, args, dty):
    return args[0].f[0]


@model(r"std::string::FromUtf8Error::utf8_error")
def utf8err_plain(en, st, args, dty):
    v = rd(en, st, args[0]) if isinstance(args[0], R) else args[0]
    return N("utf8err", v.f[0])


@model(r"(core::str|std::str|core::str::error)::Utf8Error::valid_up_to")
def utf8err_valid(en, st, args, dty):
    v = rd(en, st, args[0]) if isinstance(args[0], R) else args[0]
    n = en.slen(v.f[0])
    a = la(atom(("in", ("valid", v.f[0])), 0, 2**40))
    en.assume(st, ("ge", sub(sub(n, a), 1)))
    return a


@model(r"std::string::FromUtf8Error::as_bytes")
def utf8err_as(en, st, args, dty):
    v = rd(en, st, args[0])
    return en.alloc(st, v.f[0], None)


@model(r"std::string::String::from_utf8_lossy", r"std::string::String::from_utf8_lossy_owned")
def from_utf8_lossy(en, st, args, dty):
    v = args[0] if isinstance(args[0], S) else seq(en, st, args[0])
    return N("lossy", T((("x", ("text", v)),)))


@model(r"std::borrow::Cow::<'_, B>::(into_owned|to_mut)", r"<std::borrow::Cow<'_, B> as std::string::SpecToString>::spec_to_string",
       r"<std::string::String as std::convert::From<std::borrow::Cow<'a, str>>>::from", r"<std::borrow::Cow<'_, str> as std::string::SpecToString>::spec_to_string",
       r"<std::borrow::Cow<'_, B> as std::ops::Deref>::deref")
def cow_into(en, st, args, dty):
    v = args[0] if isinstance(args[0], N) else rd(en, st, args[0])
    if isinstance(v, N) and v.kind == "lossy":
        if en.types[dty]["k"] in ("ref", "ptr"):
            c = ("t", v.f[0])
            st.mem[c] = v.f[0]
            return R(c)
        return v.f[0]
    raise Und("cow")


@model(r"std::string::String::into_bytes")
def string_into_bytes(en, st, args, dty):
    return en.tbytes(args[0])


# ------------------------------------------------------------------ formatting and panics


@model(r"core::fmt::rt::Argument::<'_>::.*", r"std::fmt::Arguments::<'a>::.*", r"core::fmt::rt::.*", r"core::fmt::.*::fmt", r"<.* as std::fmt::(Debug|Display)>::fmt")
def fmt_arg(en, st, args, dty):
    if en.types[dty]["k"] == "adt" and en.types[dty]["name"].endswith("Arguments"):
        return N("fmt", tuple(a for a in args if isinstance(a, R)) and ())
    return N("fmt", ())


@model(r"std::fmt::format", r"alloc::fmt::format")
def fmt_format(en, st, args, dty):
    return T((("x", ("formatted",)),))


@model(r".*(panicking::(panic.*|assert_failed.*|unreachable_display)|unwrap_failed|expect_failed|handle_alloc_error|capacity_overflow|panic_cold_.*|slice_.*_fail|begin_panic|rust_panic.*|handle_error)")
def panics(en, st, args, dty):
    d = name_cur(en).split("::")[-1]
    msg = ""
    for a in args:
        try:
            v = rd(en, st, a)
        except Und:
            continue
        if isinstance(v, T) and v.p and isinstance(v.p[0], str):
            msg = v.p[0]
    return Panic(msg or d)


# ------------------------------------------------------------------ I/O errors


@model(r"alloc::io::error::<impl std::io::Error>::(new|other)", r"std::io::Error::(new|other)")
def io_error_new(en, st, args, dty):
    return N("ioerr", args[0] if isinstance(args[0], (A, O)) and len(args) > 1 else None)


@model(r"<std::io::Error as std::convert::From<std::io::ErrorKind>>::from")
def io_error_from(en, st, args, dty):
    return N("ioerr", args[0])


@model(r"std::io::Error::kind")
def io_error_kind(en, st, args, dty):
    v = rd(en, st, args[0])
    if isinstance(v, N) and v.kind == "ioerr":
        if v.f[0] is None:
            return enum(en, dty, "Other")
        return v.f[0]
    if isinstance(v, O):
        return O(dty, ("kind",) + v.key)
    raise Und("error kind of %r" % (v,))


@model(r"<std::io::ErrorKind as std::cmp::PartialEq>::(eq|ne)")
def kind_eq(en, st, args, dty):
    a, b = rd(en, st, args[0]), rd(en, st, args[1])
    k = ("eq", sub(en.discr(st, a), en.discr(st, b)))
    if name_cur(en).endswith("ne"):
        k = en.neg(k)
    return en.mkb(st, k)


def io_err(en, st, dty, tag, ev=None):
    """Err(unknown I/O error) of a result type; ev: the event it leaves."""
    ety = en.types[dty]["variants"][en.variant_index(dty, "Err")]["fields"][0][1]
    key = ("ioerr", tag, st.fresh())
    if ev is not None:
        st.ev = st.ev + (ev + (key,),)
    return enum(en, dty, "Err", O(ety, key))


def eof_err(en, st, dty):
    kty = None
    for i, t in enumerate(en.types):
        if t["k"] == "adt" and t["name"] == "std::io::ErrorKind":
            kty = i
    return enum(en, dty, "Err", N("ioerr", enum(en, kty, "UnexpectedEof") if kty is not None else None))


# ------------------------------------------------------------------ streams


@model(r"std::io::Cursor::<T>::new")
def cursor_new(en, st, args, dty):
    return N("cursor", args[0], 0)


@model(r"std::io::Cursor::<T>::(get_ref|into_inner|get_mut)")
def cursor_ref(en, st, args, dty):
    if isinstance(args[0], N):
        return args[0].f[0]
    v = rd(en, st, args[0])
    x = v.f[0]
    if isinstance(x, R) and False:
        return x
    r = ref(en, st, args[0])
    c = en.alloc(st, x, None)
    return c


@model(r"std::io::Cursor::<T>::position")
def cursor_position(en, st, args, dty):
    return rd(en, st, args[0]).f[1]


@model(r"std::io::Cursor::<T>::set_position")
def cursor_set_position(en, st, args, dty):
    r = ref(en, st, args[0])
    v = rd(en, st, r)
    wr(en, st, r, N("cursor", v.f[0], ints(en, st, args[1])))
    return unit(en, dty)


@model(r"<std::io::Cursor<T> as std::io::Seek>::stream_position")
def cursor_stream_position(en, st, args, dty):
    v = rd(en, st, args[0])
    return enum(en, dty, "Ok", v.f[1])


def seek_target(en, st, v, n, pos):
    if not isinstance(v, A):
        raise Und("seek")
    nm = en.types[v.ty]["variants"][v.v]["name"]
    x = ints(en, st, v.f[0])
    if nm == "Start":
        return x
    if nm == "Current":
        return add(pos, x)
    if n is None:
        raise Und("seek from the end")
    return add(n, x)


@model(r"<std::io::Cursor<T> as std::io::Seek>::seek")
def cursor_seek(en, st, args, dty):
    r = ref(en, st, args[0])
    v = rd(en, st, r)
    n = en.slen(cursor_data(en, st, v))
    t = seek_target(en, st, args[1], n, v.f[1])
    out = []
    for s, ok in en.fork(st, ("ge", t)):
        if ok:
            wr(en, s, r, N("cursor", v.f[0], s.simp(t)))
            out.append((s, enum(en, dty, "Ok", s.simp(t))))
        else:
            out.append((s, io_err(en, s, dty, "seek")))
    return out


def cursor_data(en, st, v):
    x = v.f[0]
    if isinstance(x, S):
        return x
    return seq(en, st, x)


@model(r"(alloc|std)::io::cursor::<impl std::io::Read for std::io::Cursor<T>>::(read_exact)", r"<std::io::Cursor<T> as std::io::Read>::read_exact")
def cursor_read_exact(en, st, args, dty):
    r = ref(en, st, args[0])
    v = rd(en, st, r)
    data = cursor_data(en, st, v)
    buf = ref(en, st, args[1])
    need = en.slen(seq(en, st, buf))
    pos = v.f[1]
    n = en.slen(data)
    out = []
    # the remaining bytes are those past min(pos, n)
    for s, ok in en.fork(st, ("ge", sub(sub(n, pos), need))):
        if ok:
            for s2, j in split_states(en, s, data, pos):
                _, rest = en.ssplit(s2, data, j)
                got, _ = en.ssplit(s2, rest, need)
                wr(en, s2, buf, got)
                wr(en, s2, r, N("cursor", v.f[0], s2.simp(add(j, need))))
                out.append((s2, ok_unit(en, dty)))
        else:
            for s2, past in en.fork(s, ("ge", sub(pos, n))):
                if past and need == 0:
                    out.append((s2, ok_unit(en, dty)))
                    continue
                wr(en, s2, r, N("cursor", v.f[0], n if not past else pos))
                out.append((s2, eof_err(en, s2, dty)))
    return out


def ok_unit(en, dty):
    ut = en.types[dty]["variants"][en.variant_index(dty, "Ok")]["fields"][0][1]
    return enum(en, dty, "Ok", A(ut, 0, ()))


@model(r".*<impl std::io::Read for std::io::Cursor<T>>::read", r"<std::io::Cursor<T> as std::io::Read>::read")
def cursor_read(en, st, args, dty):
    raise Und("partial read")


def tape_of(en, st, a):
    r = ref(en, st, a)
    v = rd(en, st, r)
    if isinstance(v, N) and v.kind == "tape":
        return r, v
    raise Und("stream %r" % (v,))


# A stream that, once it has failed, fails for good (en.sticky).


def dead(en, st, src):
    return getattr(en, "sticky", False) and ("dead", src) in st.ev


def stays_dead(en, st, dty, src):
    ety = en.types[dty]["variants"][en.variant_index(dty, "Err")]["fields"][0][1]
    return [(st, enum(en, dty, "Err", O(ety, ("ioerr", "dead", src))))]


def dies(en, st, dty, r, src):
    wr(en, st, r, N("tape", src, la(atom(("in", ("havoc", "pos", src)), 0, 2**62, exact=False))))
    st.ev = st.ev + (("dead", src), ("fail", src, ("ioerr", "dead", src)))
    return stays_dead(en, st, dty, src)[0][1]


@model(r"<Tape as std::io::Read>::read_exact", r"<harness::Tape as std::io::Read>::read_exact")
def tape_read_exact(en, st, args, dty):
    r, v = tape_of(en, st, args[0])
    buf = ref(en, st, args[1])
    need = en.slen(seq(en, st, buf))
    src, pos = v.f
    if dead(en, st, src):
        return stays_dead(en, st, dty, src)
    out = []
    bad = st.copy()
    en.stats["forks"] += 1
    pos = st.simp(pos)
    if isinstance(need, int) and need <= 64:
        data = S(tuple(("e", la(en.byte(src, add(pos, i)))) for i in range(need)))
    else:
        data = S((("b", src, pos, need),))
    wr(en, st, buf, data)
    wr(en, st, r, N("tape", src, st.simp(add(pos, need))))
    st.ev = st.ev + (("read", src, pos, need),)
    out.append((st, ok_unit(en, dty)))
    if getattr(en, "sticky", False):
        out.append((bad, dies(en, bad, dty, r, src)))
    elif not getattr(en, "no_io_errors", False):
        f = bad.fresh()
        wr(en, bad, r, N("tape", src, la(atom(("in", ("havoc", "pos", src, f)), 0, 2**62, exact=False))))
        out.append((bad, io_err(en, bad, dty, ("read", src, pos), ("fail", src, pos, need))))
    return out


@model(r"<Tape as std::io::Seek>::stream_position", r"<harness::Tape as std::io::Seek>::stream_position")
def tape_position(en, st, args, dty):
    r, v = tape_of(en, st, args[0])
    if dead(en, st, v.f[0]):
        return stays_dead(en, st, dty, v.f[0])
    out = [(st, enum(en, dty, "Ok", v.f[1]))]
    if getattr(en, "sticky", False):
        bad = st.copy()
        out.append((bad, dies(en, bad, dty, r, v.f[0])))
    elif not getattr(en, "no_io_errors", False):
        bad = st.copy()
        out.append((bad, io_err(en, bad, dty, "position", ("fail", v.f[0], "position"))))
    return out


@model(r"<Tape as std::io::Seek>::seek", r"<harness::Tape as std::io::Seek>::seek")
def tape_seek(en, st, args, dty):
    r, v = tape_of(en, st, args[0])
    if dead(en, st, v.f[0]):
        return stays_dead(en, st, dty, v.f[0])
    t = st.simp(seek_target(en, st, args[1], None, v.f[1]))
    out = []
    if getattr(en, "sticky", False):
        bad = st.copy()
        out.append((bad, dies(en, bad, dty, r, v.f[0])))
    elif not getattr(en, "no_io_errors", False):
        bad = st.copy()
        wr(en, bad, r, N("tape", v.f[0], la(atom(("in", ("havoc", "pos", v.f[0], bad.fresh())), 0, 2**62, exact=False))))
        out.append((bad, io_err(en, bad, dty, "seek", ("fail", v.f[0], "seek", t))))
    st.ev = st.ev + (("seek", v.f[0], t),)
    wr(en, st, r, N("tape", v.f[0], t))
    return [(st, enum(en, dty, "Ok", t))] + out


# ------------------------------------------------------------------ maps


@model(r"std::collections::HashMap::<K, V>::new", r"std::collections::HashMap::<K, V>::with_capacity", r"<std::collections::HashMap<K, V, S> as std::default::Default>::default",
       r"std::collections::BTreeMap::<K, V>::new")
def map_new(en, st, args, dty):
    t = en.types[dty]
    return N("map", (), None, t["args"][0], t["args"][1])


def map_lookup(en, st, m, key):
    """[(state, entry index | ('base',) | None)]"""
    entries, base = m.f[0], m.f[1]
    out = []
    cur = [st]
    for i in range(len(entries) - 1, -1, -1):
        nx = []
        for s0 in cur:
            k = key_eq(en, s0, entries[i][0], key)
            for s, b in ([(s0, bool(k))] if isinstance(k, (bool, int)) else en.fork(s0, k)):
                if b:
                    out.append((s, i))
                else:
                    nx.append(s)
        cur = nx
    for s in cur:
        out.append((s, None if base is None else ("base",)))
    return out


def key_eq(en, st, a, b):
    if a == b:
        return True
    try:
        d = sub(en.discr(st, a), en.discr(st, b))
    except Und:
        if isinstance(a, (int, L)) and isinstance(b, (int, L)):
            d = sub(a, b)
        else:
            raise
    k = ("eq", d)
    r = en.decide(st, k)
    return r if r is not None else k


@model(r"std::collections::HashMap::<K, V, S, A>::insert", r"std::collections::HashMap::<K, V, S>::insert", r"std::collections::BTreeMap::<K, V, A>::insert")
def map_insert(en, st, args, dty):
    r = ref(en, st, args[0])
    m = rd(en, st, r)
    key, val = args[1], args[2]
    out = []
    for s, hit in map_lookup(en, st, m, key):
        ents = m.f[0]
        if hit is None:
            old = none(en, dty)
            ents = ents + ((key, val),)
        elif hit == ("base",):
            old = en.opaque(s, dty, m.f[1] + ("old", key))
            ents = ents + ((key, val),)
        else:
            old = some(en, dty, ents[hit][1])
            ents = ents[:hit] + ents[hit + 1:] + ((key, val),)
        wr(en, s, r, N("map", ents, *m.f[1:]))
        out.append((s, old))
    return out


def base_has(en, m, key):
    kd = key
    return atom(("in", m.f[1] + ("has", kd)), 0, 1, exact=None if not E._has(m.f[1], "havoc") else False)


@model(r"std::collections::HashMap::<K, V, S, A>::(get|get_mut|contains_key)", r"std::collections::HashMap::<K, V, S>::(get|contains_key)", r"std::collections::BTreeMap::<K, V, A>::(get|contains_key)")
def map_get(en, st, args, dty):
    r = ref(en, st, args[0])
    m = rd(en, st, r)
    if isinstance(m, O):
        raise Und("map")
    key = rd(en, st, args[1])
    has = name_cur(en).endswith("contains_key")
    out = []
    for s, hit in map_lookup(en, st, m, key):
        if hit is None:
            out.append((s, 0 if has else none(en, dty)))
        elif hit == ("base",):
            a = base_has(en, m, key)
            for s2, b in en.fork(s, ("eq", add(la(a), -1))):
                if has:
                    out.append((s2, int(b)))
                elif not b:
                    out.append((s2, none(en, dty)))
                else:
                    kk = m.f[1] + ("at", key)
                    c = ("o", kk)
                    if c not in s2.mem:
                        s2.mem[c] = en.opaque(s2, m.f[3], kk)
                        en.celltype[c] = m.f[3]
                    out.append((s2, some(en, dty, R(c))))
        else:
            if has:
                out.append((s, 1))
            else:
                out.append((s, some(en, dty, en.alloc(s, m.f[0][hit][1], m.f[3]))))
    return out


@model(r"std::collections::HashMap::<K, V, S, A>::remove")
def map_remove(en, st, args, dty):
    r = ref(en, st, args[0])
    m = rd(en, st, r)
    key = rd(en, st, args[1])
    out = []
    for s, hit in map_lookup(en, st, m, key):
        if hit is None:
            out.append((s, none(en, dty)))
        elif hit == ("base",):
            raise Und("removal from an unknown map")
        else:
            wr(en, s, r, N("map", m.f[0][:hit] + m.f[0][hit + 1:], *m.f[1:]))
            out.append((s, some(en, dty, m.f[0][hit][1])))
    return out


# ------------------------------------------------------------------ memory


@model(r"std::mem::swap", r"std::intrinsics::typed_swap_nonoverlapping", r"std::ptr::swap")
def mem_swap(en, st, args, dty):
    a, b = args[0], args[1]
    va, vb = en.read(st, a.cell, a.path), en.read(st, b.cell, b.path)
    wr(en, st, a, vb)
    wr(en, st, b, va)
    return unit(en, dty)


@model(r"std::mem::replace", r"std::ptr::replace")
def mem_replace(en, st, args, dty):
    a = args[0]
    v = en.read(st, a.cell, a.path)
    wr(en, st, a, args[1])
    return v


@model(r"std::option::Option::<T>::take")
def opt_take(en, st, args, dty):
    a = args[0]
    v = en.read(st, a.cell, a.path)
    wr(en, st, a, none(en, dty))
    return v


@model(r"std::ptr::(read|read_unaligned)", r"std::intrinsics::read_via_copy", r"std::ptr::const_ptr::<impl \*const T>::read")
def ptr_read(en, st, args, dty):
    return en.read(st, args[0].cell, args[0].path)


@model(r"std::ptr::write", r"std::intrinsics::write_via_move")
def ptr_write(en, st, args, dty):
    wr(en, st, args[0], args[1])
    return unit(en, dty)


@model(r"<.* as std::clone::Clone>::clone", r"core::clone::impls::<impl std::clone::Clone for .*>::clone", r"std::clone::Clone::clone")
def clone(en, st, args, dty):
    v = en.read(st, args[0].cell, args[0].path) if isinstance(args[0], R) else rd(en, st, args[0])
    if isinstance(v, (int, L, F, Bx, R, S, T)) or (isinstance(v, N) and v.kind in ("siter", "cursor", "map", "viter")):
        return v
    if isinstance(v, A) and is_plain(en, v):
        return v
    if isinstance(v, O):
        return v
    raise Und("clone")


def is_plain(en, v):
    if isinstance(v, (int, L, F, Bx, S, T, O)):
        return True
    if isinstance(v, N):
        return v.kind in ("map", "cursor", "siter", "viter")
    if isinstance(v, A):
        return all(x is None or is_plain(en, x) for x in v.f)
    return False


# ------------------------------------------------------------------ arithmetic


@model(r"core::num::<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::from_(be|le|ne)_bytes")
def from_bytes(en, st, args, dty):
    v = args[0]
    n = en.slen(v)
    be = "from_be" in name_cur(en)
    r = 0
    for i in range(n):
        b = en.sget(st, v, i if be else n - 1 - i)
        r = add(mulc(r, 256), b)
    return en.wrap(st, r, dty)


@model(r"core::num::<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::to_(be|le|ne)_bytes")
def to_bytes(en, st, args, dty):
    n = en.types[dty]["len"]
    x = args[0]
    v = en.wrapk(st, x, n * 8, False)
    out = []
    for i in range(n):
        out.append(("e", en.remc(st, en.divc(st, v, 256 ** (n - 1 - i)), 256)))
    if "to_be" not in name_cur(en):
        out.reverse()
    return S(tuple(out))


@model(r"(core|std)::f(32|64)::<impl f(32|64)>::abs", r"std::intrinsics::fabs(f32|f64)?")
def f_abs(en, st, args, dty):
    x = args[0]
    return en.fop("abs", x.k[1], x)


@model(r"(core|std)::f(32|64)::<impl f(32|64)>::sqrt", r"std::intrinsics::sqrt(f32|f64)?", r"core::f(32|64)::math::sqrt")
def f_sqrt(en, st, args, dty):
    x = args[0]
    return en.fop("sqrt", x.k[1], x)


@model(r"(core|std)::f(32|64)::<impl f(32|64)>::(floor|ceil|trunc|round|fract|recip|signum)", r"std::intrinsics::(floor|ceil|trunc|round)(f32|f64)?")
def f_round(en, st, args, dty):
    x = args[0]
    op = re.sub("f(32|64)$", "", name_cur(en).split("::")[-1])
    if x.k[0] == "i2f" and op in ("floor", "ceil", "trunc", "round", "fract"):
        return x if op != "fract" else f_const(x.k[1], 0)
    return en.fop(op, x.k[1], x)


@model(r"(core|std)::f(32|64)::<impl f(32|64)>::is_(finite|infinite)")
def f_finite(en, st, args, dty):
    x = args[0]
    b = x.k[1]
    k = ("f", "Lt", en.fop("abs", b, x), f_const(b, float("inf")))
    if name_cur(en).endswith("infinite"):
        k = ("f", "Eq") + tuple(sorted((en.fop("abs", b, x), f_const(b, float("inf"))), key=repr))
    return en.mkb(st, k)


@model(r"(core|std)::f(32|64)::<impl f(32|64)>::(mul_add|powi|powf|max|min|copysign|clamp)")
def f_other(en, st, args, dty):
    x = args[0]
    b = x.k[1]
    return en.fop(name_cur(en).split("::")[-1], b, *[a if isinstance(a, F) else f_const(b, a) if isinstance(a, int) else F(("i2f", b, a)) for a in args])


@model(r"core::f(32|64)::<impl f(32|64)>::is_nan")
def f_nan(en, st, args, dty):
    k = ("f", "Eq", args[0], args[0])
    d = en.decide(st, k)
    return Bx(("not", k)) if d is None else int(not d)


@model(r"core::f(32|64)::<impl f(32|64)>::is_sign_(negative|positive)")
def f_sign(en, st, args, dty):
    x = args[0]
    no = int(name_cur(en).endswith("positive"))
    yes = 1 - no
    if x.k[0] == "c":
        return yes if x.k[2] >> (x.k[1] - 1) else no
    zero = f_const(x.k[1], 0.0)
    out = []
    for s, b in en.fork(st, en.as_cond(en.fcompare(st, "Lt", x, zero))):
        if b:
            out.append((s, yes))
            continue
        if x.k[0] == "i2f":
            out.append((s, no))
            continue
        for s2, b2 in en.fork(s, en.as_cond(en.fcompare(s, "Lt", zero, x))):
            out.append((s2, no if b2 else en.opaque(s2, dty, ("sign", x))))
    return out


@model(r"core::f(32|64)::<impl f(32|64)>::from_bits")
def f_from_bits(en, st, args, dty):
    b = en.types[dty]["bits"]
    v = args[0]
    return F(("c", b, v)) if isinstance(v, int) else F(("frombits", b, v))


@model(r"std::intrinsics::bswap", r"core::num::<impl .*>::swap_bytes")
def bswap(en, st, args, dty):
    n = en.types[dty]["bits"] // 8
    v = en.wrapk(st, args[0], n * 8, False)
    r = 0
    for i in range(n):
        r = add(mulc(r, 256), en.remc(st, en.divc(st, v, 256 ** i), 256))
    return en.wrap(st, r, dty)


@model(r"std::intrinsics::(cold_path|assume|likely|unlikely|black_box|assert_.*|ub_checks|contract_checks|is_val_statically_known)", r"std::hint::(must_use|black_box|assert_unchecked|cold_path)", r"std::hint::unreachable_unchecked::precondition_check")
def passthrough(en, st, args, dty):
    t = en.types[dty]
    if t["k"] == "tuple" and not t["tys"]:
        return unit(en, dty)
    if args:
        return args[0]
    return 0


@model(r"std::intrinsics::(add|sub|mul)_with_overflow")
def with_overflow(en, st, args, dty):
    a, b = ints(en, st, args[0]), ints(en, st, args[1])
    op = name_cur(en).split("::")[-1].split("_")[0]
    ty = en.types[dty]["tys"][0]
    v = add(a, b) if op == "add" else sub(a, b) if op == "sub" else en.mul(st, a, b)
    lo, hi = en.irange(ty)
    bad = en.mkb(st, ("or", ("ge", add(v, -hi - 1)), ("ge", sub(lo - 1, v))))
    return A(dty, 0, (en.wrap(st, v, ty), bad))


@model(r"std::intrinsics::(wrapping|unchecked)_(add|sub|mul)")
def wrapping(en, st, args, dty):
    a, b = ints(en, st, args[0]), ints(en, st, args[1])
    op = name_cur(en).split("_")[-1]
    v = add(a, b) if op == "add" else sub(a, b) if op == "sub" else en.mul(st, a, b)
    return en.wrap(st, v, dty)


@model(r"std::intrinsics::(unchecked_shl|unchecked_shr|unchecked_div|unchecked_rem|exact_div)")
def unchecked(en, st, args, dty):
    op = {"shl": "Shl", "shr": "Shr", "div": "Div", "rem": "Rem"}[name_cur(en).split("_")[-1]]
    return en.wrap(st, en.raw(st, op, ints(en, st, args[0]), ints(en, st, args[1]), en.types[dty]), dty)


@model(r"std::intrinsics::(saturating_add|saturating_sub)", r"core::num::<impl (u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)>::(saturating_add|saturating_sub|saturating_mul)")
def saturating(en, st, args, dty):
    a, b = ints(en, st, args[0]), ints(en, st, args[1])
    op = name_cur(en).split("_")[-1]
    v = add(a, b) if op == "add" else sub(a, b) if op == "sub" else en.mul(st, a, b)
    lo, hi = en.irange(dty)
    out = []
    for s, big in en.fork(st, ("ge", add(v, -hi - 1))):
        if big:
            out.append((s, hi))
            continue
        for s2, small in en.fork(s, ("ge", sub(lo - 1, v))):
            out.append((s2, lo if small else v))
    return out


@model(r"core::num::<impl (u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)>::(checked_add|checked_sub|checked_mul|checked_neg)")
def checked(en, st, args, dty):
    op = name_cur(en).split("_")[-1]
    a = ints(en, st, args[0])
    if op == "neg":
        v = mulc(a, -1)
    else:
        b = ints(en, st, args[1])
        v = add(a, b) if op == "add" else sub(a, b) if op == "sub" else en.mul(st, a, b)
    lo, hi = en.irange(en.types[dty]["args"][0])
    out = []
    for s, big in en.fork(st, ("ge", add(v, -hi - 1))):
        if big:
            out.append((s, none(en, dty)))
            continue
        for s2, small in en.fork(s, ("ge", sub(lo - 1, v))):
            out.append((s2, none(en, dty) if small else some(en, dty, v)))
    return out


@model(r"core::num::<impl (u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)>::(wrapping_add|wrapping_sub|wrapping_mul|wrapping_neg)")
def wrapping_m(en, st, args, dty):
    op = name_cur(en).split("_")[-1]
    a = ints(en, st, args[0])
    v = mulc(a, -1) if op == "neg" else None
    if v is None:
        b = ints(en, st, args[1])
        v = add(a, b) if op == "add" else sub(a, b) if op == "sub" else en.mul(st, a, b)
    return en.wrap(st, v, dty)


@model(r"core::num::<impl (i8|i16|i32|i64|isize)>::(unsigned_abs|abs)")
def int_abs(en, st, args, dty):
    a = ints(en, st, args[0])
    out = []
    for s, pos in en.fork(st, ("ge", a)):
        v = a if pos else mulc(a, -1)
        if name_cur(en).endswith("::abs"):
            lo, hi = en.irange(dty)
            for s2, over in en.fork(s, ("ge", add(v, -hi - 1))):
                out.append((s2, Panic("attempt to negate with overflow") if over else v))
        else:
            out.append((s, v))
    return out


@model(r"core::num::<impl (i8|i16|i32|i64|isize|u8|u16|u32|u64|usize)>::(rem_euclid|div_ceil|div_euclid|is_multiple_of)")
def euclid(en, st, args, dty):
    a, b = ints(en, st, args[0]), st.simp(ints(en, st, args[1]))
    op = name_cur(en).split("::")[-1]
    if not isinstance(b, int):
        l, h = st.rng(b)
        if h - l > 64:
            raise Und(op)
        out = []
        for v in range(l, h + 1):
            s = st.copy()
            try:
                en.assume(s, ("eq", add(b, -v)))
                s.nf += 1
                x = euclid(en, s, [s.simp(a), v], dty)
                out.append((s, x))
            except Infeasible:
                pass
        return out
    if b == 0:
        if op == "is_multiple_of":
            return en.mkb(st, ("eq", a))
        return Panic("division by zero")
    if b < 0:
        raise Und(op)
    lo, _ = st.rng(a)
    if op == "rem_euclid":
        if lo < 0:
            k = -(lo // b)
            return en.remc(st, add(a, k * b), b)
        return en.remc(st, a, b)
    if op == "is_multiple_of":
        return en.mkb(st, ("eq", en.remc(st, a, b)))
    if lo < 0:
        raise Und(op)
    if op == "div_ceil":
        return en.divc(st, add(a, b - 1), b)
    return en.divc(st, a, b)


@model(r"std::cmp::impls::<impl std::cmp::Ord for .*>::(min|max)", r"std::cmp::Ord::(min|max)", r"std::cmp::(min|max)", r"std::intrinsics::integer_(min|max)")
def minmax(en, st, args, dty):
    if en.types[dty]["k"] != "int":
        raise Und("min")
    a, b = ints(en, st, args[0]), ints(en, st, args[1])
    mx = name_cur(en).endswith("max")
    out = []
    for s, ge in en.fork(st, ("ge", sub(a, b))):
        out.append((s, a if ge == mx else b))
    return out


@model(r"std::cmp::impls::<impl std::cmp::Ord for .*>::cmp", r"std::intrinsics::three_way_compare")
def cmp(en, st, args, dty):
    a, b = rd(en, st, args[0]), rd(en, st, args[1])
    a, b = ints(en, st, a), ints(en, st, b)
    d = sub(a, b)
    out = []
    for s, less in en.fork(st, ("ge", add(mulc(d, -1), -1))):
        if less:
            out.append((s, enum(en, dty, "Less")))
            continue
        for s2, eq in en.fork(s, ("eq", d)):
            out.append((s2, enum(en, dty, "Equal" if eq else "Greater")))
    return out


@model(r"(std|core)::num::<impl i(8|16|32|64|128|size)>::signum")
def int_signum(en, st, args, dty):
    d = ints(en, st, args[0])
    out = []
    for s, less in en.fork(st, ("ge", add(mulc(d, -1), -1))):
        if less:
            out.append((s, -1))
            continue
        for s2, eq in en.fork(s, ("eq", d)):
            out.append((s2, 0 if eq else 1))
    return out


@model(r"std::intrinsics::discriminant_value", r"std::mem::discriminant")
def discriminant(en, st, args, dty):
    return en.discr(st, rd(en, st, args[0]))


@model(r"std::intrinsics::(size_of|size_of_val)", r"std::mem::(size_of|size_of_val)")
def size_of(en, st, args, dty):
    ty = en.cur[0]["targs"][0]
    t = en.types[ty]
    if t["k"] in ("int", "float"):
        return t["bits"] // 8
    if t["k"] == "array" and en.types[t["ty"]]["k"] == "int":
        return t["len"] * en.types[t["ty"]]["bits"] // 8
    raise Und("size_of")


@model(r"std::hint::select_unpredictable", r"std::intrinsics::select_unpredictable", r"core::bool::<impl bool>::select_unpredictable")
def select(en, st, args, dty):
    c = args[0]
    return [(s, args[1] if b else args[2]) for s, b in en.split_or(st, en.as_cond(c))]


@model(r"std::process::(exit|abort)", r"std::intrinsics::abort")
def abort(en, st, args, dty):
    return Panic("abort")


@model(r"std::convert::num::<impl std::convert::From<.*> for .*>::from", r"core::convert::num::<impl std::convert::From<.*> for .*>::from")
def num_from(en, st, args, dty):
    t = en.types[dty]
    v = args[0]
    if t["k"] == "float":
        if isinstance(v, F):
            return en.cast(st, "FloatToFloat", v, None, dty)
        return en.cast(st, "IntToFloat", v, None, dty)
    v = en.as_int(st, v)
    return v


@model(r"(std|core)::(convert|char)::.*<impl std::convert::TryFrom<.*> for .*>::try_from")
def num_try_from(en, st, args, dty):
    okty = en.types[dty]["variants"][en.variant_index(dty, "Ok")]["fields"][0][1]
    errty = en.types[dty]["variants"][en.variant_index(dty, "Err")]["fields"][0][1]
    if en.types[okty]["k"] != "int":
        raise Und("try_from")
    v = ints(en, st, args[0])
    lo, hi = en.irange(okty)
    out = []
    for s, big in en.fork(st, ("ge", add(v, -hi - 1))):
        if big:
            out.append((s, enum(en, dty, "Err", A(errty, 0, (None,)))))
            continue
        for s2, small in en.fork(s, ("ge", sub(lo - 1, v))):
            out.append((s2, enum(en, dty, "Err", A(errty, 0, (None,))) if small else enum(en, dty, "Ok", v)))
    return out
