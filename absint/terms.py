"""Abstract values: affine forms over named atoms, float terms, sequences, aggregates, references.

Every value is immutable and hashable; atoms are interned, so equality of values is equality of
normal forms.
"""
import struct

# ---------------------------------------------------------------- atoms and affine forms


class Atom:
    __slots__ = ("key", "lo", "hi", "id", "exact", "bound")

    def __repr__(self):
        return fmt_atom(self)

    def __lt__(self, o):
        return self.id < o.id


_atoms = {}


def _exact_in(x):
    if isinstance(x, Atom):
        return x.exact
    if isinstance(x, L):
        return all(a.exact for a, _ in x.t)
    if isinstance(x, tuple):
        return all(_exact_in(y) for y in x)
    if isinstance(x, (F, Bx)):
        return _exact_in(x.k)
    if isinstance(x, A):
        return _exact_in(x.f)
    if isinstance(x, S):
        return _exact_in(x.segs)
    return True


def _bound_in(x):
    if isinstance(x, Atom):
        return x.bound
    if isinstance(x, L):
        return any(a.bound for a, _ in x.t)
    if isinstance(x, tuple):
        return any(_bound_in(y) for y in x)
    if isinstance(x, (F, Bx)):
        return _bound_in(x.k)
    if isinstance(x, A):
        return _bound_in(x.f)
    if isinstance(x, S):
        return _bound_in(x.segs)
    if isinstance(x, (O,)):
        return _bound_in(x.key)
    return False


def atom(key, lo, hi, exact=None):
    # inputs of the same name may be of different types in different analyses
    ident = (key, lo, hi) if key[0] == "in" else key
    a = _atoms.get(ident)
    if a is None:
        a = Atom()
        a.key = key
        a.lo, a.hi = lo, hi
        a.id = len(_atoms)
        a.exact = _exact_in(key) if exact is None else exact
        a.bound = key[0] == "bound" or _bound_in(key[1:])
        _atoms[ident] = a
    elif lo < a.lo or hi > a.hi:
        # the range of an atom belongs to its key; narrower ones belong to states
        raise AssertionError("%r ranges over %d to %d, not %d to %d" % (key, a.lo, a.hi, lo, hi))
    return a


def srange(x):
    """The range of a form in any state."""
    if isinstance(x, int):
        return x, x
    lo = hi = x.c
    for a, k in x.t:
        lo += k * (a.lo if k > 0 else a.hi)
        hi += k * (a.hi if k > 0 else a.lo)
    return lo, hi


class L:
    """c + sum(coef * atom); plain ints stand for constants."""

    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, L) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __repr__(self):
        return fmt(self)


def mk(c, d):
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id))
    return L(c, t) if t else c


def la(a):
    return L(0, ((a, 1),))


def lin(x):
    if isinstance(x, L):
        return x.c, x.t
    return x, ()


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        return L(a + b.c, b.t)
    if isinstance(b, int):
        return L(a.c + b, a.t)
    d = dict(a.t)
    for x, k in b.t:
        d[x] = d.get(x, 0) + k
    return mk(a.c + b.c, d)


def mulc(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    return L(a.c * k, tuple((x, y * k) for x, y in a.t))


def sub(a, b):
    return add(a, mulc(b, -1))


# ---------------------------------------------------------------- other values


class Bx:
    """A symbolic boolean. k: ('ge',L) ('eq',L) ('ne',L) ('f',op,F,F) ('not',k) ('and',k,k) ('or',k,k)"""

    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return hash(("B", self.k))

    def __eq__(self, o):
        return isinstance(o, Bx) and self.k == o.k

    def __repr__(self):
        return fmt(self)


class F:
    """A float term. k: ('c',bits,raw) ('i2f',bits,L) ('in',bits,key) (op,bits,args..)"""

    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return hash(("F", self.k))

    def __eq__(self, o):
        return isinstance(o, F) and self.k == o.k

    def __repr__(self):
        return fmt(self)


class A:
    """An aggregate: struct, enum value of a known variant, tuple, closure."""

    __slots__ = ("ty", "v", "f", "h")

    def __init__(self, ty, v, f):
        self.ty, self.v, self.f = ty, v, f
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.ty, self.v, self.f))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, A) and self.v == o.v and self.f == o.f and self.ty == o.ty)

    def __repr__(self):
        return fmt(self)


class R:
    """A reference: a memory cell and a path into it. n: metadata for slices is in the path."""

    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __hash__(self):
        return hash((self.cell, self.path))

    def __eq__(self, o):
        return isinstance(o, R) and self.cell == o.cell and self.path == o.path

    def __repr__(self):
        return "&%s%s" % (self.cell, list(self.path) if self.path else "")


class S:
    """A sequence (vector, array, slice, byte string contents): a tuple of segments
    ('e',v) | ('b',src,pos,n) | ('rep',n,body over BOUND) | ('op',key,n,ty)"""

    __slots__ = ("segs", "h")

    def __init__(self, segs=()):
        self.segs = segs
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(self.segs)
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, S) and self.segs == o.segs)

    def __repr__(self):
        return fmt(self)


class T:
    """Text (a String or str): parts: python str | ('ch',L) | ('x', hashable)"""

    __slots__ = ("p",)

    def __init__(self, p=()):
        self.p = p

    def __hash__(self):
        return hash(("T", self.p))

    def __eq__(self, o):
        return isinstance(o, T) and self.p == o.p

    def __repr__(self):
        return fmt(self)


class N:
    """A native (library) object: kind plus fields."""

    __slots__ = ("kind", "f")

    def __init__(self, kind, *f):
        self.kind, self.f = kind, f

    def __hash__(self):
        return hash(("N", self.kind, self.f))

    def __eq__(self, o):
        return isinstance(o, N) and self.kind == o.kind and self.f == o.f

    def __repr__(self):
        return fmt(self)


class O:
    """An unknown value of a type, named by key; parts are named by extending the key."""

    __slots__ = ("ty", "key")

    def __init__(self, ty, key):
        self.ty, self.key = ty, key

    def __hash__(self):
        return hash(("O", self.key))

    def __eq__(self, o):
        return isinstance(o, O) and self.key == o.key

    def __repr__(self):
        return "?%s" % (self.key,)


BOUND = [atom(("bound", d), 0, 2**63) for d in range(4)]


# ---------------------------------------------------------------- printing


def fmt_atom(a):
    k = a.key
    if k[0] == "byte":
        return "B[%s@%s]" % (k[1] if not isinstance(k[1], tuple) else ".".join(fmt(x) for x in k[1]), fmt(k[2]))
    if k[0] == "in":
        return "%s" % (".".join(str(fmt(x)) for x in k[1]) if isinstance(k[1], tuple) else k[1])
    if k[0] == "bound":
        return "j%d" % k[1]
    return "%s(%s)" % (k[0], ",".join(str(fmt(x)) for x in k[1:]))


def fmt(x):
    if isinstance(x, Atom):
        return fmt_atom(x)
    if isinstance(x, L):
        s = []
        for a, k in x.t:
            s.append(("%d*" % k if k != 1 else "") + fmt_atom(a))
        if x.c:
            s.append(str(x.c))
        return "+".join(s).replace("+-", "-")
    if isinstance(x, Bx):
        return fmt(x.k)
    if isinstance(x, F):
        k = x.k
        if k[0] == "c":
            return "%gf" % f_val(x)
        return "%s(%s)" % (k[0], ",".join(str(fmt(y)) for y in k[2:]))
    if isinstance(x, A):
        return "{%s:%s %s}" % (x.ty, x.v, ", ".join(str(fmt(y)) for y in x.f))
    if isinstance(x, S):
        return "[" + "; ".join(fmt_seg(s) for s in x.segs) + "]"
    if isinstance(x, T):
        return "T(%s)" % (", ".join(repr(p) if isinstance(p, str) else str(fmt(p)) for p in x.p))
    if isinstance(x, N):
        return "%s(%s)" % (x.kind, ", ".join(str(fmt(y)) for y in x.f))
    if isinstance(x, tuple):
        return "(" + ",".join(str(fmt(y)) for y in x) + ")"
    return repr(x) if not isinstance(x, int) else str(x)


def fmt_seg(s):
    if s[0] == "e":
        return str(fmt(s[1]))
    return "%s(%s)" % (s[0], ",".join(str(fmt(y)) for y in s[1:]))


# ---------------------------------------------------------------- traversal


def walk_atoms(x, out):
    if isinstance(x, Atom):
        if x not in out:
            out.add(x)
            walk_atoms(x.key[1:], out)
    elif isinstance(x, L):
        for a, _ in x.t:
            walk_atoms(a, out)
    elif isinstance(x, tuple):
        for y in x:
            walk_atoms(y, out)
    elif isinstance(x, (F, Bx)):
        walk_atoms(x.k, out)
    elif isinstance(x, A):
        walk_atoms(x.f, out)
    elif isinstance(x, S):
        walk_atoms(x.segs, out)
    elif isinstance(x, T):
        walk_atoms(x.p, out)
    elif isinstance(x, N):
        walk_atoms(x.f, out)
    elif isinstance(x, O):
        walk_atoms(x.key, out)
    elif isinstance(x, R):
        walk_atoms(x.path, out)
        walk_atoms(x.cell, out)


def atoms_of(x):
    s = set()
    walk_atoms(x, s)
    return s


def subst(x, m, rebuild):
    """Replace atoms by affine forms. rebuild(key) re-creates an application atom."""
    if not m:
        return x
    memo = {}

    def go(x):
        if isinstance(x, (int, str, float)) or x is None:
            return x
        if isinstance(x, L):
            r = memo.get(x)
            if r is None:
                r = x.c
                for a, k in x.t:
                    r = add(r, mulc(goa(a), k))
                memo[x] = r
            return r
        if isinstance(x, Atom):
            return goa(x)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, F):
            return F(go(x.k))
        if isinstance(x, Bx):
            return Bx(go(x.k))
        if isinstance(x, A):
            return A(x.ty, x.v, go(x.f))
        if isinstance(x, S):
            return S(go(x.segs))
        if isinstance(x, T):
            return T(go(x.p))
        if isinstance(x, N):
            return N(x.kind, *go(x.f))
        if isinstance(x, O):
            return O(x.ty, go(x.key))
        if isinstance(x, R):
            return R(go(x.cell), go(x.path))
        return x

    def goa(a):
        r = m.get(a)
        if r is not None:
            return r
        r = memo.get(a)
        if r is None:
            k = tuple(go(y) for y in a.key)
            r = la(a) if k == a.key else rebuild(a, k)
            memo[a] = r
        return r

    return go(x)


# ---------------------------------------------------------------- floats


def f_const(bits, v):
    if bits == 32:
        try:
            raw = struct.unpack("<I", struct.pack("<f", v))[0]
        except OverflowError:
            raw = 0x7F800000 if v > 0 else 0xFF800000
    else:
        raw = struct.unpack("<Q", struct.pack("<d", v))[0]
    return F(("c", bits, raw))


def f_val(f):
    k = f.k
    if k[1] == 32:
        return struct.unpack("<f", struct.pack("<I", k[2]))[0]
    return struct.unpack("<d", struct.pack("<Q", k[2]))[0]


def fround(bits, v):
    return f_val(f_const(bits, v))
