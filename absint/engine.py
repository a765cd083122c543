"""Abstract interpreter over the monomorphised MIR of the analysed program.

Domain: affine forms over input atoms with per-atom value sets and linear constraints, float terms,
segment-abstracted sequences, and a memory of abstract cells. Paths are partitioned by the branch
decisions the domain cannot settle; loops whose trip count is not settled are summarised by a
recurrence analysis of one generic iteration (see `accelerate`). Nothing of the analysed program is
executed, and no solver is used.
"""
import math
import os
import json
import re
import sys
import time
from terms import *

sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)

U64 = 2**64 - 1
BIG = 2**62


# failures of the analysis itself leave the path undecided
INTERNAL = () if os.environ.get("VERIF_DEBUG") else (Exception,)


class Und(Exception):
    """The domain cannot represent this construct: the path is undecided."""


class Infeasible(Exception):
    pass


HANG = "the loop returns to the same state for ever"


class Pin(Und):
    """The value of an index among known elements has to be settled first."""

    def __init__(self, i, v):
        Und.__init__(self, "position in sequence")
        self.i, self.v = i, v


class Frame:
    __slots__ = ("uid", "inst", "body", "bb", "i", "dest", "ret", "prev", "loops", "summ", "tag", "done", "first", "walk")

    def __init__(self):
        self.first = None
        self.walk = ()

    def copy(self):
        f = Frame()
        f.uid, f.inst, f.body, f.bb, f.i = self.uid, self.inst, self.body, self.bb, self.i
        f.dest, f.ret, f.prev = self.dest, self.ret, self.prev
        f.loops = dict(self.loops) if self.loops is not None else None
        f.summ = set(self.summ) if self.summ is not None else None
        f.tag = self.tag
        f.first = self.first
        f.walk = self.walk
        f.done = getattr(self, "done", 0)
        return f


APPS = frozenset(("div", "rem", "wrap", "sum", "mul", "and", "f2i", "min", "max", "irem", "idiv", "bit"))


def quotient_range(k, x, y):
    """Where the remainder or quotient, rounded towards zero, of values in two ranges lies."""
    l, h = x
    m = max(abs(l), abs(h))
    if k == "irem":
        m = min(m, max(abs(y[0]), abs(y[1]), 1) - 1)
        return -m if l < 0 else 0, m if h > 0 else 0
    return -m if l < 0 or y[0] < 0 else 0, m


def bits_range(op, x, y):
    if x[0] >= 0 and y[0] >= 0:
        if op == "And":
            return 0, min(x[1], y[1])
        return 0, (1 << max(x[1], y[1]).bit_length()) - 1
    n = max((v if v >= 0 else ~v).bit_length() for v in x + y)
    return -(1 << n), (1 << n) - 1


class State:
    __slots__ = ("fr", "mem", "dom", "lin", "ne", "fc", "fa", "ev", "n", "nf", "inexact", "memo")

    def __init__(self):
        self.fr, self.mem, self.dom, self.lin, self.ne = [], {}, {}, (), ()
        self.fc, self.fa, self.ev, self.n, self.nf = {}, (), (), 0, 0
        self.inexact = False

    def copy(self):
        s = State()
        s.fr = [f.copy() for f in self.fr]
        s.mem = dict(self.mem)
        s.dom = dict(self.dom)
        s.lin, s.ne, s.fa, s.ev = self.lin, self.ne, self.fa, self.ev
        s.fc = dict(self.fc)
        s.n, s.nf, s.inexact = self.n, self.nf, self.inexact
        return s

    def fresh(self):
        self.n += 1
        return self.n

    # ---- value sets: (lo, hi, mask or None); mask bit i <=> lo0+i for small atoms
    def arange(self, a):
        d = self.dom.get(a)
        if d is not None:
            return d[0], d[1]
        k = a.key
        if k[0] in APPS:
            return self.app_range(a)
        return a.lo, a.hi

    def app_range(self, a):
        k = a.key
        lo, hi = a.lo, a.hi
        if k[0] == "div":
            l, h = self.rng(k[1])
            if l >= 0:
                return max(lo, l // k[2]), min(hi, h // k[2])
        elif k[0] == "mul":
            l1, h1 = self.rng(k[1])
            l2, h2 = self.rng(k[2])
            c = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
            return max(lo, min(c)), min(hi, max(c))
        elif k[0] in ("irem", "idiv"):
            l, h = quotient_range(k[0], self.rng(k[1]), self.rng(k[2]))
            return max(lo, l), min(hi, h)
        elif k[0] == "bit":
            l, h = bits_range(k[1], self.rng(k[2]), self.rng(k[3]))
            return max(lo, l), min(hi, h)
        elif k[0] == "sum":
            l, h = k[1].lo, k[1].hi
            ul, uh = self.rng(k[2])
            return max(lo, min(l * ul, l * uh, 0)), min(hi, max(h * ul, h * uh, 0))
        return lo, hi

    def rng(self, x):
        if isinstance(x, int):
            return x, x
        lo = hi = x.c
        for a, k in x.t:
            l, h = self.arange(a)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    def simp(self, x):
        """Replace atoms of known value."""
        if isinstance(x, int):
            return x
        ch = False
        for a, k in x.t:
            l, h = self.arange(a)
            if l == h:
                ch = True
                break
        if not ch:
            return x
        r = x.c
        d = {}
        for a, k in x.t:
            l, h = self.arange(a)
            if l == h:
                r += k * l
            else:
                d[a] = k
        return mk(r, d)

    def maskof(self, a):
        d = self.dom.get(a)
        if d is not None:
            return d[2]
        if 0 <= a.hi - a.lo <= 65535:
            return (1 << (a.hi - a.lo + 1)) - 1
        return None

    def setmask(self, a, m):
        if m == 0:
            raise Infeasible
        lo = a.lo + ((m & -m).bit_length() - 1)
        hi = a.lo + m.bit_length() - 1
        self.dom[a] = (lo, hi, m)

    def setrange(self, a, lo, hi):
        l, h = self.arange(a)
        lo, hi = max(lo, l), min(hi, h)
        if lo > hi:
            raise Infeasible
        m = self.maskof(a)
        if m is not None:
            m &= ((1 << (hi - a.lo + 1)) - 1) & ~((1 << (lo - a.lo)) - 1)
            self.setmask(a, m)
        else:
            self.dom[a] = (lo, hi, None)


_mask_cache = {}


class Engine:
    def __init__(self, dump):
        self.D = dump
        self.types = dump["types"]
        self.insts = dump["insts"]
        for x in self.insts:
            if x and x["body"]:
                x["body"]["heads"] = None
        self.root_ids = dict((n.split("::")[-1], i) for n, i in dump["roots"])
        self.overrides = []  # (predicate on inst, fn)
        self.ov_cache = {}
        self.model_cache = {}
        self.unroll = 0
        self.walked = False
        self.mode = "accel"  # or 'unroll' (no summarisation) with a bound
        self.maxunroll = 5000
        self.sticky = False
        self.maxdepth = 0
        self.maxpaths = 400000
        self.stats = dict(steps=0, forks=0, insts=set(), loops=0, panics_discharged=0, asserts=0, calls=0)
        self.celltype = {}
        self.uid = 0
        self.forklog = None
        self.left = 0
        self.callstack_limit = 220
        import models

        self.models = models
        self.by_s = {}
        for i, t in enumerate(self.types):
            self.by_s.setdefault(t["s"], i)
        self.oracle = None
        self.cut = 0
        self.deadline = None

    # ------------------------------------------------------------ types
    def T(self, i):
        return self.types[i]

    def ty_named(self, s):
        return self.by_s[s]

    def irange(self, ty):
        t = self.types[ty]
        k = t["k"]
        if k == "int":
            if t["signed"]:
                return -(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1
            return 0, (1 << t["bits"]) - 1
        if k == "bool":
            return 0, 1
        if k == "char":
            return 0, 0x10FFFF
        if k in ("ptr", "ref", "fnptr"):
            return 0, U64
        raise Und("integer range of %s" % t["s"])

    def variant_index(self, ty, name):
        for i, v in enumerate(self.types[ty]["variants"]):
            if v["name"] == name:
                return i
        raise Und("variant %s" % name)

    def is_adt(self, ty, name):
        t = self.types[ty]
        return t["k"] == "adt" and t["name"] == name

    # ------------------------------------------------------------ integers
    def rebuild(self, a, k):
        if k[0] == "byte":
            return la(self.byte(k[1], k[2]))
        if k[0] == "wrap":
            return self.wrapk(None, k[3], k[1], k[2])
        if k[0] == "div":
            return self.divc(None, k[1], k[2])
        if k[0] == "rem":
            return self.remc(None, k[1], k[2])
        if k[0] == "sum":
            if k[2] == 0:
                return 0
            e = k[1]
            if isinstance(e, L) and not (len(e.t) == 1 and e.c == 0 and e.t[0][1] == 1):
                # the summand became a composite form: distribute
                c, t = lin(e)
                r = self.mulf(c, k[2])
                for x, co in t:
                    r = add(r, mulc(self.rebuild(a, ("sum", x, k[2])), co))
                return r
            if isinstance(e, int):
                return self.mulf(e, k[2])
            if isinstance(e, L):
                e = e.t[0][0]
            if BOUND[0] not in atoms_of(e) and e is not BOUND[0]:
                return self.mulf(la(e), k[2])
            if isinstance(k[2], int) and k[2] <= 16:
                r = 0
                for j in range(k[2]):
                    r = add(r, subst(la(e), {BOUND[0]: j}, self.rebuild))
                return r
            k = ("sum", e, k[2])
            return la(atom(k, 0 if e.lo >= 0 else -BIG, BIG, a.exact if not a.exact else None))
        if k[0] == "mul":
            return self.mulf(k[1], k[2])
        if k[0] == "tri" and isinstance(k[1], int):
            return k[1] * (k[1] - 1) // 2
        return la(atom(k, a.lo, a.hi, a.exact if not a.exact else None))

    def byte(self, src, pos):
        return atom(("byte", src, pos), 0, 255)

    def rngs(self, st, x):
        if st is not None:
            return st.rng(x)
        if isinstance(x, int):
            return x, x
        lo = hi = x.c
        for a, k in x.t:
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        return lo, hi

    def wrap(self, st, x, ty):
        t = self.types[ty]
        if t["k"] in ("ptr", "ref"):
            return x
        if t["k"] in ("bool", "char"):
            return x
        return self.wrapk(st, x, t["bits"], t["signed"])

    def wrapk(self, st, x, bits, signed):
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if isinstance(x, int):
            return ((x - lo) & ((1 << bits) - 1)) + lo
        l, h = self.rngs(st, x)
        if lo <= l and h <= hi:
            return x
        if st is not None and st.lin and (lo <= l or self.decide(st, ("ge", add(x, -lo)))) and (
            h <= hi or self.decide(st, ("ge", sub(hi, x)))
        ):
            return x
        m = 1 << bits
        q0, q1 = (l - lo) // m, (h - lo) // m
        if q0 == q1:
            return add(x, -q0 * m)
        if st is not None and st.lin and q1 - q0 <= 4:
            for q in range(q0, q1 + 1):
                y = add(x, -q * m)
                if self.decide(st, ("ge", add(y, -lo))) and self.decide(st, ("ge", sub(hi, y))):
                    return y
        # drop whole multiples, so that equal residues have equal names
        r = mk(((x.c - lo) & (m - 1)) + lo, dict((a, k % m if k % m <= m // 2 else k % m - m) for a, k in x.t))
        if isinstance(r, int):
            return self.wrapk(st, r, bits, signed)
        l, h = self.rngs(st, r)
        if lo <= l and h <= hi:
            return r
        return la(atom(("wrap", bits, signed, r), lo, hi))

    def resolve_cond(self, st, k):
        if k[0] in ("eq", "ne", "ge") and isinstance(k[1], L) and any(a.key[0] == "b2i" for a, _ in k[1].t):
            x, pend = self.resolve(st, k[1])
            return (k[0], x), pend
        if k[0] in ("and", "or"):
            a, p = self.resolve_cond(st, k[1])
            b, q = self.resolve_cond(st, k[2])
            return (k[0], a, b), p or q
        return k, None

    def resolve(self, st, x):
        """Re-evaluate derived atoms under the facts of the path. Returns (form, pending split)."""
        if not isinstance(x, L):
            return x, None
        r, pend = x.c, None
        ch = False
        for a, k in x.t:
            key = a.key
            if key[0] == "b2i":
                q, inner = self.resolve_cond(st, key[1])
                y = self.decide(st, q)
                if y is None:
                    pend = pend or inner or q
                else:
                    ch = True
                    r = add(r, k if y else 0)
                    continue
            if key[0] in ("wrap", "div", "rem") and self.base_atom(("eq", la(a))) is None:
                if key[0] == "wrap":
                    y = self.wrapk(st, st.simp(key[3]), key[1], key[2])
                elif key[0] == "div":
                    y = self.divc(st, st.simp(key[1]), key[2])
                else:
                    y = self.remc(st, st.simp(key[1]), key[2])
                if y != la(a):
                    ch = True
                    r = add(r, mulc(y, k))
                    continue
                if key[0] == "wrap" and pend is None:
                    lo = -(1 << (key[1] - 1)) if key[2] else 0
                    l, h = st.rng(key[3])
                    m = 1 << key[1]
                    q0, q1 = (l - lo) // m, (h - lo) // m
                    if q1 - q0 <= 4:
                        pend = ("ge", add(key[3], -(lo + (q0 + 1) * m)))
                        if self.decide(st, pend) is not None:
                            pend = ("ge", add(key[3], -(lo + q1 * m)))
                            if self.decide(st, pend) is not None:
                                pend = None
            r = add(r, L(0, ((a, k),)))
        return (r if ch else x), pend

    def divc(self, st, x, m):
        """floor division of a non-negative form by a constant."""
        if isinstance(x, int):
            return x // m
        q, r = {}, {}
        for a, k in x.t:
            if k % m == 0:
                q[a] = k // m
            else:
                r[a] = k
        rest = mk(x.c % m, r)
        head = mk(x.c // m, q)
        l, h = self.rngs(st, rest)
        if 0 <= l and h < m:
            return head
        if isinstance(rest, int):
            return add(head, rest // m)
        l, h = srange(rest)
        return add(head, la(atom(("div", rest, m), max(0, l) // m, max(0, h) // m)))

    def remc(self, st, x, m):
        if isinstance(x, int):
            return x % m
        r = mk(x.c % m, dict((a, k) for a, k in x.t if k % m))
        if isinstance(r, int):
            return r % m
        l, h = self.rngs(st, r)
        if 0 <= l and h < m:
            return r
        return la(atom(("rem", r, m), 0, m - 1))

    def mul(self, st, a, b):
        if isinstance(a, int):
            return mulc(b, a)
        if isinstance(b, int):
            return mulc(a, b)
        a, b = st.simp(a), st.simp(b)
        if isinstance(a, int):
            return mulc(b, a)
        if isinstance(b, int):
            return mulc(a, b)
        if fmt(a) > fmt(b):
            a, b = b, a
        return self.mulf(a, b)

    def mulf(self, a, b):
        if isinstance(a, int):
            return mulc(b, a)
        if isinstance(b, int):
            return mulc(a, b)
        if fmt(a) > fmt(b):
            a, b = b, a
        c = [x * y for x in srange(a) for y in srange(b)]
        return la(atom(("mul", a, b), min(c), max(c)))

    # evaluation of a form on a valuation (used only for terms of one small atom, and by witnesses)
    def ev(self, x, val):
        if isinstance(x, (int, str)) or x is None:
            return x
        if isinstance(x, L):
            r = x.c
            for a, k in x.t:
                r += k * self.eva(a, val)
            return r
        if isinstance(x, F):
            return self.evf(x, val)
        if isinstance(x, Bx):
            return self.evb(x.k, val)
        raise Und("evaluation of %s" % type(x).__name__)

    def eva(self, a, val):
        if a in val:
            return val[a]
        k = a.key
        if k[0] == "wrap":
            return self.wrapk(None, self.ev(k[3], val), k[1], k[2])
        if k[0] == "div":
            return self.ev(k[1], val) // k[2]
        if k[0] == "rem":
            return self.ev(k[1], val) % k[2]
        if k[0] == "mul":
            return self.ev(k[1], val) * self.ev(k[2], val)
        if k[0] == "bit":
            x, y = self.ev(k[2], val), self.ev(k[3], val)
            return x & y if k[1] == "And" else x | y if k[1] == "Or" else x ^ y
        if k[0] == "b2i":
            return 1 if self.evb(k[1], val) else 0
        if k[0] == "idiv":
            x, y = self.ev(k[1], val), self.ev(k[2], val)
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        if k[0] == "irem":
            x, y = self.ev(k[1], val), self.ev(k[2], val)
            r = abs(x) % abs(y)
            return -r if x < 0 else r
        if k[0] == "f2i":
            return self.f2i_const(self.evf(k[3], val), k[1], k[2])
        if k[0] == "in" and k[1][0] == "parses":
            return 1 if parse_float(self.ev_text(k[1][1], val)) is not None else 0
        if k[0] == "byte" and ("byte", k[1], self.subst_val(k[2], val)) != k:
            a2 = _atoms_get(("byte", k[1], self.subst_val(k[2], val)))
            if a2 is not None and a2 in val:
                return val[a2]
        raise KeyError(a)

    def ev_text(self, t, val):
        out = []
        for p in t.p:
            if isinstance(p, str):
                out.append(p)
            elif p[0] == "ch":
                out.append(chr(self.ev(p[1], val)))
            else:
                raise KeyError(p)
        return "".join(out)

    def subst_val(self, x, val):
        return self.ev(x, val) if isinstance(x, L) else x

    def evf(self, f, val):
        k = f.k
        if k[0] == "c":
            return f_val(f)
        if k[0] == "i2f":
            return fround(k[1], self.ev(k[2], val))
        if k[0] == "in":
            if f in val:
                return val[f]
            if k[2][0] == "parse":
                x = parse_float(self.ev_text(k[2][1], val))
                if x is not None:
                    return fround(k[1], x)
            raise KeyError(f)
        if k[0] == "frombits":
            return f_val(F(("c", k[1], self.ev(k[2], val))))
        a = [self.evf(y, val) for y in k[2:]]
        return fround(k[1], float_op(k[0], a))

    def evb(self, k, val):
        if k[0] == "ge":
            return self.ev(k[1], val) >= 0
        if k[0] == "eq":
            return self.ev(k[1], val) == 0
        if k[0] == "ne":
            return self.ev(k[1], val) != 0
        if k[0] == "not":
            return not self.evb(k[1], val)
        if k[0] == "and":
            return self.evb(k[1], val) and self.evb(k[2], val)
        if k[0] == "or":
            return self.evb(k[1], val) or self.evb(k[2], val)
        if k[0] == "f":
            a, b = self.evf(k[2], val), self.evf(k[3], val)
            return {"Eq": a == b, "Lt": a < b, "Le": a <= b}[k[1]]
        raise Und("evaluation of condition %s" % (k[0],))

    def base_atom(self, k):
        """The only base atom of a condition, if there is exactly one and its domain is small."""
        out = set()

        def go(x):
            if isinstance(x, L):
                for a, _ in x.t:
                    goa(a)
            elif isinstance(x, tuple):
                for y in x:
                    go(y)
            elif isinstance(x, (Bx, F)):
                go(x.k)
            elif isinstance(x, Atom):
                goa(x)

        def goa(a):
            if a.key[0] in ("wrap", "div", "rem", "mul", "bit", "b2i", "idiv", "irem", "f2i"):
                for y in a.key[1:]:
                    go(y)
            else:
                out.add(a)

        go(k)
        if len(out) == 1:
            a = next(iter(out))
            if 0 <= a.hi - a.lo <= 65535:
                return a
        return None

    def cond_mask(self, k, a):
        key = (k, a)
        m = _mask_cache.get(key)
        if m is not None:
            return m
        n = a.hi - a.lo + 1
        full = (1 << n) - 1
        x = k[1] if k[0] in ("ge", "eq", "ne") else None
        if isinstance(x, L) and len(x.t) == 1 and x.t[0][0] is a:
            co, c = x.t[0][1], x.c
            if k[0] == "ge":
                if co > 0:
                    lo = -((c) // co)  # co*v >= -c  => v >= ceil(-c/co)
                    i = max(0, lo - a.lo)
                    m = full & ~((1 << i) - 1) if i <= n else 0
                else:
                    hi = c // (-co)
                    i = hi - a.lo + 1
                    m = full & ((1 << i) - 1) if i > 0 else 0
            else:
                m = 0
                if c % co == 0:
                    v = -c // co
                    if a.lo <= v <= a.hi:
                        m = 1 << (v - a.lo)
                if k[0] == "ne":
                    m = full & ~m
        else:
            m = 0
            for v in range(n):
                try:
                    if self.evb(k, {a: a.lo + v}):
                        m |= 1 << v
                except ZeroDivisionError:
                    pass  # no path gets there with this value
                except (KeyError, Und):
                    return None
        if len(_mask_cache) > 200000:
            _mask_cache.clear()
        _mask_cache[key] = m
        return m

    # ------------------------------------------------------------ deciding and assuming
    def neg(self, k):
        if k[0] == "ge":
            return ("ge", add(mulc(k[1], -1), -1))
        if k[0] == "eq":
            return ("ne", k[1])
        if k[0] == "ne":
            return ("eq", k[1])
        if k[0] == "not":
            return k[1]
        if k[0] == "and":
            return ("or", self.neg(k[1]), self.neg(k[2]))
        if k[0] == "or":
            return ("and", self.neg(k[1]), self.neg(k[2]))
        return ("not", k)

    def decide(self, st, k):
        op = k[0]
        if op == "ge":
            x = k[1]
            if isinstance(x, int):
                return x >= 0
            l, h = st.rng(x)
            if l >= 0:
                return True
            if h < 0:
                return False
            a = self.base_atom(k)
            if a is not None:
                m = self.cond_mask(k, a)
                d = st.maskof(a)
                if m is not None and d is not None:
                    if d & ~m == 0:
                        return True
                    if d & m == 0:
                        return False
                    return None
            for c in st.lin:
                if st.rng(sub(x, c))[0] >= 0:
                    return True
                if st.rng(add(x, c))[1] < 0:
                    return False
            if len(st.lin) <= 14:
                for i, c in enumerate(st.lin):
                    for e in st.lin[i + 1:]:
                        ce = add(c, e)
                        if st.rng(sub(x, ce))[0] >= 0:
                            return True
                        if st.rng(add(x, ce))[1] < 0:
                            return False
            return None
        if op in ("eq", "ne"):
            x = k[1]
            r = None
            if isinstance(x, int):
                r = x == 0
            else:
                l, h = st.rng(x)
                if l > 0 or h < 0:
                    r = False
                elif l == h == 0:
                    r = True
                else:
                    a = self.base_atom(("eq", x))
                    if a is not None:
                        m = self.cond_mask(("eq", x), a)
                        d = st.maskof(a)
                        if m is not None and d is not None:
                            if d & ~m == 0:
                                r = True
                            elif d & m == 0:
                                r = False
                    if r is None:
                        if x in st.ne or mulc(x, -1) in st.ne:
                            r = False
                        else:
                            g = self.decide(st, ("ge", x))
                            if g is False:
                                r = False
                            else:
                                g2 = self.decide(st, ("ge", mulc(x, -1)))
                                if g2 is False:
                                    r = False
                                elif g and g2:
                                    r = True
            if r is None:
                return None
            return r if op == "eq" else not r
        if op == "not":
            r = self.decide(st, k[1])
            return None if r is None else not r
        if op in ("and", "or"):
            if st.fc and (k if op == "or" else self.neg(k)) in st.fc:
                return op == "or"
            a, b = self.decide(st, k[1]), self.decide(st, k[2])
            if op == "and":
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a or b:
                return True
            return False if (a is False and b is False) else None
        if op == "f":
            if k in st.fc:
                return st.fc[k]
            a, b = k[2], k[3]
            if a.k[0] == "c" and b.k[0] == "c":
                return self.evb(k, {})
            at = self.base_atom(k)
            if at is not None:
                m = self.cond_mask(k, at)
                d = st.maskof(at)
                if m is not None and d is not None:
                    if d & ~m == 0:
                        return True
                    if d & m == 0:
                        return False
            if op == "f" and k[1] != "Eq":
                x, y = self.frange(st, a), self.frange(st, b) or (f_val(b),) * 2 if b.k[0] == "c" else self.frange(st, b)
                if x is not None and y is not None:
                    if x[1] < y[0] or k[1] == "Le" and x[1] == y[0]:
                        return True
                    if x[0] > y[1] or k[1] == "Lt" and x[0] == y[1]:
                        return False
            return self.fknown(st, k) if st.fc else None
        raise Und("condition %s" % (op,))

    def assume(self, st, k):
        """Refine st (in place) by the condition. Raises Infeasible."""
        self.assume1(st, k)
        for x in st.lin + st.ne:
            if isinstance(x, L):
                for a, _ in x.t:
                    if a.key[0] == "b2i" and st.arange(a) == (0, 1):
                        d = self.decide(st, a.key[1])
                        if d is not None:
                            st.setrange(a, int(d), int(d))
                            self.propagate(st)
        for q in [q for q in st.fc if q[0] == "or"]:
            a, b = self.decide(st, q[1]), self.decide(st, q[2])
            if a or b:
                del st.fc[q]
            elif a is False and b is False:
                raise Infeasible
            elif a is False or b is False:
                del st.fc[q]
                self.assume1(st, q[2] if a is False else q[1])

    def assume1(self, st, k):
        op = k[0]
        if op == "and":
            self.assume(st, k[1])
            self.assume(st, k[2])
            return
        if op == "not" and k[1][0] != "f":
            return self.assume(st, self.neg(k[1]))
        d = self.decide(st, k)
        if d is True:
            return
        if d is False:
            raise Infeasible
        if op == "or":
            a, b = self.decide(st, k[1]), self.decide(st, k[2])
            if a is False or b is False:
                return self.assume1(st, k[2] if a is False else k[1])
            st.fc[k] = True
            return
        a = self.base_atom(k)
        if a is not None:
            m = self.cond_mask(k, a)
            cur = st.maskof(a)
            if m is not None and cur is not None:
                st.setmask(a, cur & m)
                if op in ("f", "not"):
                    if op == "f":
                        st.fc[k] = True
                    else:
                        st.fc[k[1]] = False
                return
        if op == "ge":
            x = k[1]
            if len(x.t) == 1:
                at, co = x.t[0]
                if co > 0:
                    st.setrange(at, -(x.c // co), at.hi)
                else:
                    st.setrange(at, at.lo, x.c // (-co))
                return
            # equality with a known opposite constraint
            nx = mulc(x, -1)
            st.lin = st.lin + (x,)
            if any(st.rng(sub(nx, c))[0] >= 0 for c in st.lin[:-1]):
                self.eliminate(st, x)
            self.propagate(st)
            return
        if op == "eq":
            x = k[1]
            if len(x.t) == 1:
                at, co = x.t[0]
                if x.c % co:
                    raise Infeasible
                st.setrange(at, -x.c // co, -x.c // co)
                return
            st.lin = st.lin + (x, mulc(x, -1))
            self.eliminate(st, x)
            self.propagate(st)
            return
        if op == "ne":
            x = k[1]
            if len(x.t) == 1 and abs(x.t[0][1]) == 1:
                at, co = x.t[0]
                v = -x.c * co
                l, h = st.arange(at)
                if v == l:
                    st.setrange(at, l + 1, h)
                    return
                if v == h:
                    st.setrange(at, l, h - 1)
                    return
            st.ne = st.ne + (x,)
            return
        if op == "f":
            st.fc[k] = True
            return
        if op == "not":
            st.fc[k[1]] = False
            return
        raise Und("assume %s" % (op,))

    def propagate(self, st):
        for _ in range(3):
            ch = False
            for x in st.lin:
                if isinstance(x, int):
                    if x < 0:
                        raise Infeasible
                    continue
                lo, hi = st.rng(x)
                if hi < 0:
                    raise Infeasible
                for a, k in x.t:
                    al, ah = st.arange(a)
                    rest = hi - (k * ah if k > 0 else k * al)
                    if k > 0:
                        b = -(rest // k)
                        if b > al:
                            st.setrange(a, b, ah)
                            ch = True
                            hi = st.rng(x)[1]
                    else:
                        b = rest // (-k)
                        if b < ah:
                            st.setrange(a, al, b)
                            ch = True
                            hi = st.rng(x)[1]
            if not ch:
                break
        for x in st.ne:
            if st.simp(x) == 0:
                raise Infeasible

    def tighten(self, st):
        """Sharpen the facts of a finished path; raises Infeasible."""
        lin = st.lin
        for x in st.ne:
            for y in (x, mulc(x, -1)):
                if self.decide(st, ("ge", y)):
                    z = add(y, -1)
                    if isinstance(z, int):
                        raise Infeasible
                    if z not in st.lin:
                        st.lin = st.lin + (z,)
        if st.lin:
            self.propagate(st)
        for x in st.ne:
            if st.simp(x) == 0:
                raise Infeasible

    def eliminate(self, st, x):
        """x == 0: substitute a loop counter away if x mentions one with a unit coefficient."""
        for a, k in x.t:
            if a.key[0] == "k" and abs(k) == 1:
                rest = mk(x.c, dict((b, c) for b, c in x.t if b is not a))
                val = mulc(rest, -k)
                if a in atoms_of(val):
                    continue
                self.substitute(st, {a: val})
                return True
        return False

    def substitute(self, st, m):
        tgt = set(m)
        for c, v in list(st.mem.items()):
            if isinstance(v, int):
                continue
            if tgt & atoms_of(v):
                st.mem[c] = self.norm(subst(v, m, self.rebuild))
        st.lin = tuple(y for y in (subst(c, m, self.rebuild) for c in st.lin) if not (isinstance(y, int) and y >= 0))
        st.ne = tuple(y for y in (subst(c, m, self.rebuild) for c in st.ne) if not (isinstance(y, int) and y != 0))
        st.fa = subst(st.fa, m, self.rebuild)
        st.ev = subst(st.ev, m, self.rebuild)
        for a in list(st.dom):
            d = st.dom[a]
            if a in m:
                l, h, _ = d
                del st.dom[a]
                for y in (add(m[a], -l), sub(h, m[a])):
                    if not isinstance(y, int):
                        st.lin = st.lin + (y,)
                    elif y < 0:
                        raise Infeasible
            elif tgt & atoms_of(a):
                del st.dom[a]
                n = subst(la(a), m, self.rebuild)
                if isinstance(n, L) and len(n.t) == 1 and n.t[0][1] == 1 and n.c == 0:
                    b = n.t[0][0]
                    if d[2] is not None and b.lo == a.lo and b.hi == a.hi:
                        st.setmask(b, d[2] & (st.maskof(b) or d[2]))
                    else:
                        st.setrange(b, d[0], d[1])

    def norm(self, v):
        """Re-canonicalise sequences after a substitution."""
        if isinstance(v, S):
            return S(canon_segs(self, tuple(self.norm_seg(s) for s in v.segs)))
        if isinstance(v, A):
            return A(v.ty, v.v, tuple(self.norm(x) for x in v.f))
        if isinstance(v, N):
            return N(v.kind, *[self.norm(x) if isinstance(x, (S, A, N)) else x for x in v.f])
        return v

    def norm_seg(self, s):
        if s[0] == "e":
            return ("e", self.norm(s[1]))
        if s[0] == "rep":
            return ("rep", s[1], self.norm(s[2]))
        return s

    # a fork on a condition: list of (state, bool)
    def fork(self, st, k, io=False):
        d = self.decide(st, k)
        if d is not None:
            return [(st, d)]
        out = []
        if self.forklog is not None and not io:
            self.forklog.append(k)
        self.stats["forks"] += 1
        o = st.copy()
        for s, c, v in ((st, k, True), (o, self.neg(k), False)):
            try:
                self.assume(s, c)
            except Infeasible:
                continue
            if not io:
                s.nf += 1
            out.append((s, v))
        return out

    # ------------------------------------------------------------ sequences
    def seg_len(self, s):
        if s[0] == "e":
            return 1
        if s[0] == "b":
            return s[3]
        return s[1] if s[0] == "rep" else s[2]

    def slen(self, v):
        if isinstance(v, T):
            return self.tlen(v)
        if not isinstance(v, S):
            raise Und("length of %r" % (v,))
        n = 0
        for s in v.segs:
            n = add(n, self.seg_len(s))
        return n

    def tlen(self, v):
        n = 0
        for p in v.p:
            if isinstance(p, str):
                n += len(p.encode())
            else:
                n = add(n, la(atom(("tlen", p), 0, 2**40, exact=False)))
        return n

    def seg_get(self, st, s, i):
        if s[0] == "e":
            return s[1]
        if s[0] == "b":
            return la(self.byte(s[1], st.simp(add(s[2], i)) if st else add(s[2], i)))
        if s[0] == "rep":
            return self.norm(subst(s[2], {BOUND[depth(s[2])]: i if isinstance(i, (int, L)) else i}, self.rebuild))
        if s[0] == "op":
            return self.opaque(st, s[3], s[1] + (("idx", i),))
        raise Und("segment")

    def sget(self, st, v, i):
        i = st.simp(i)
        off = 0
        if isinstance(v, T):
            v = self.tbytes(v)
        n = len(v.segs)
        if isinstance(i, int) and n == len([1 for s in v.segs if s[0] == "e"]):
            if 0 <= i < n:
                return v.segs[i][1]
            raise Und("index out of range")
        for s in v.segs:
            ln = self.seg_len(s)
            rel = sub(i, off)
            a = self.decide(st, ("ge", rel))
            b = self.decide(st, ("ge", add(sub(ln, rel), -1)))
            if a and b:
                return self.seg_get(st, s, rel)
            if a is None or (a and b is None):
                if len(v.segs) == 1:
                    return self.seg_get(st, s, rel)
                if all(s[0] == "e" for s in v.segs):
                    if n > 1 and self.models.most(v) > 64 and any(a.key[0] == "k" for a, _ in i.t):
                        self.walked = True
                    x = self.models.run_value(self, st, v, i)
                    if x is not None:
                        return x
                    raise Pin(i, v)
                raise Und("position in sequence")
            off = add(off, ln)
        raise Und("index past the end")

    def tbytes(self, t):
        segs = []
        for p in t.p:
            if isinstance(p, str):
                segs.extend(("e", b) for b in p.encode())
            elif p[0] == "ch":
                segs.append(("e", p[1]))
            else:
                raise Und("bytes of opaque text")
        return S(tuple(segs))

    def sset(self, st, v, i, x):
        i = st.simp(i)
        if isinstance(i, int):
            out, off = [], 0
            done = False
            for s in v.segs:
                ln = self.seg_len(s)
                if not done and isinstance(off, int) and isinstance(ln, int) and off <= i < off + ln:
                    if s[0] == "e":
                        out.append(("e", x))
                    else:
                        for j in range(ln):
                            out.append(("e", x if off + j == i else self.seg_get(st, s, j)))
                    done = True
                else:
                    out.append(s)
                off = add(off, ln)
            if done:
                return S(tuple(out))
        off = 0
        for n, s in enumerate(v.segs):
            ln = self.seg_len(s)
            rel = st.simp(sub(i, off))
            if not self.decide(st, ("ge", rel)):
                break
            if self.decide(st, ("ge", add(sub(ln, rel), -1))):
                if s[0] == "e":
                    mid = (("e", x),)
                else:
                    l, r = self.seg_split(s, rel)
                    _, r = self.seg_split(r, 1)
                    mid = (l, ("e", x), r)
                    mid = tuple(y for y in mid if self.seg_len(y) != 0)
                return S(v.segs[:n] + mid + v.segs[n + 1 :])
            off = add(off, ln)
        raise Und("store at a symbolic index")

    def ssplit(self, st, v, i):
        """Split a sequence at i."""
        i = st.simp(i)
        left, right, off = [], [], 0
        for s in v.segs:
            if right:
                right.append(s)
                continue
            ln = self.seg_len(s)
            rel = st.simp(sub(i, off))
            if rel == 0:
                right.append(s)
            elif self.decide(st, ("ge", sub(rel, ln))):
                left.append(s)
            elif s[0] == "e":
                raise Und("split position")
            else:
                if self.decide(st, ("ge", rel)) is not True or self.decide(st, ("ge", sub(ln, rel))) is not True:
                    raise Und("split position")
                l, r = self.seg_split(s, rel)
                left.append(l)
                right.append(r)
            off = add(off, ln)
        if not right and self.decide(st, ("eq", sub(i, off))) is not True:
            raise Und("split position")
        return S(tuple(left)), S(canon_segs(self, tuple(right)))

    def seg_split(self, s, i):
        if s[0] == "b":
            return ("b", s[1], s[2], i), ("b", s[1], add(s[2], i), sub(s[3], i))
        if s[0] == "rep":
            d = BOUND[depth(s[2])]
            return ("rep", i, s[2]), ("rep", sub(s[1], i), subst(s[2], {d: add(la(d), i)}, self.rebuild))
        if s[0] == "op":
            return ("op", s[1], i, s[3]), ("op", s[1] + (("from", i),), sub(s[2], i), s[3])
        raise Und("split")

    def scat(self, a, b):
        return S(canon_segs(self, a.segs + b.segs))

    # ------------------------------------------------------------ opaque values
    def opaque(self, st, ty, key):
        t = self.types[ty]
        k = t["k"]
        if k == "int" or k == "char":
            lo, hi = self.irange(ty)
            return la(atom(("in", key), lo, hi, exact=None if not _has(key, "havoc") else False))
        if k == "bool":
            return Bx(("ne", la(atom(("in", key), 0, 1, exact=None if not _has(key, "havoc") else False))))
        if k == "float":
            return F(("in", t["bits"], key))
        if k == "adt" and t["ak"] != "enum":
            name = t["name"]
            if name in ("std::vec::Vec",):
                return S((("op", key, la(atom(("len", key), 0, 2**40)), t["args"][0]),))
            if name in ("std::string::String",):
                return T((("x", key),))
            if name in ("std::collections::HashMap",):
                return N("map", (), key, t["args"][0], t["args"][1])
        if k == "str":
            return T((("x", key),))
        if k == "slice":
            return S((("op", key, la(atom(("len", key), 0, 2**40)), t["ty"]),))
        if k == "array":
            return S(tuple(("e", self.opaque(st, t["ty"], key + (("idx", i),))) for i in range(t["len"])))
        return O(ty, key)

    def expand(self, st, v, variant=None):
        """Expose the fields of an opaque aggregate."""
        t = self.types[v.ty]
        k = t["k"]
        if k in ("ref", "ptr"):
            return self.oref(st, v)
        if k == "tuple":
            return A(v.ty, 0, tuple(self.opaque(st, x, v.key + (i,)) for i, x in enumerate(t["tys"])))
        if k == "adt":
            vs = t["variants"]
            if t["ak"] == "enum":
                if variant is None:
                    raise Und("variant of %s" % t["s"])
                return A(v.ty, variant, tuple(self.opaque(st, f[1], v.key + ("v%d" % variant, i)) for i, f in enumerate(vs[variant]["fields"])))
            if not vs or t["name"] in ("std::io::Error", "std::boxed::Box"):
                raise Und("fields of %s" % t["s"])
            out = [self.opaque(st, f[1], v.key + (f[0],)) for f in vs[0]["fields"]]
            names = [f[0] for f in vs[0]["fields"]]
            if t["name"].endswith("::Index") and "count" in names and "data" in names:
                # an index holds as many chunks as it says (P07)
                i, j = names.index("count"), names.index("data")
                if isinstance(out[i], (int, L)) and isinstance(out[j], S) and len(out[j].segs) == 1:
                    g = out[j].segs[0]
                    out[j] = S((("op", g[1], out[i], g[3]),))
            return A(v.ty, 0, tuple(out))
        raise Und("fields of %s" % t["s"])

    def oref(self, st, v):
        t = self.types[v.ty]
        cell = ("o", v.key)
        if cell not in st.mem:
            st.mem[cell] = self.opaque(st, t["ty"], v.key + ("*",))
            self.celltype[cell] = t["ty"]
        return R(cell)

    def odiscr(self, st, v):
        t = self.types[v.ty]
        n = len(t["variants"])
        return atom(("variant", v.key), 0, max(0, n - 1), exact=None if not _has(v.key, "havoc") else False)

    def alloc(self, st, v, ty=None):
        c = ("h", st.fresh())
        st.mem[c] = v
        self.celltype[c] = ty
        return R(c)

    # ------------------------------------------------------------ places
    def loc(self, st, fr, place):
        cell = ("l", fr.uid, place[0])
        path = ()
        variant = None
        for p in place[1]:
            k = p[0]
            if k == "f":
                path = path + (("f", p[1], variant, p[2]),)
                variant = None
            elif k == "deref":
                v = self.read(st, cell, path)
                if isinstance(v, O):
                    v = self.oref(st, v)
                if isinstance(v, A):
                    v = unwrap_ptr(v)
                if not isinstance(v, R):
                    raise Und("dereference of %r" % (v,))
                cell, path = v.cell, v.path
            elif k == "d":
                variant = p[1]
            elif k == "i":
                i = st.mem[("l", fr.uid, p[1])]
                path = path + (("i", st.simp(i)),)
            elif k == "ci":
                v = self.read(st, cell, path)
                if p[3]:
                    i = sub(self.slen(v), p[1])
                else:
                    i = p[1]
                path = path + (("i", st.simp(i)),)
            elif k == "ss":
                v = self.read(st, cell, path)
                end = sub(self.slen(v), p[2]) if p[3] else p[2]
                path = path + (("sl", p[1], st.simp(sub(end, p[1]))),)
            elif k == "oc":
                pass
            else:
                raise Und("place projection " + k)
        return cell, path, variant

    def empty_local(self, st, cell):
        """Stores of types without a representation are left out of the MIR of the library."""
        if cell[0] == "l":
            for f in st.fr:
                if f.uid == cell[1]:
                    v = self.sole_value(f.body["locals"][cell[2]])
                    if v is not None:
                        return v
        raise Und("uninitialised %s" % (cell,))

    def inhabited(self, ty, depth=0):
        t = self.types[ty]
        if t["k"] == "never":
            return False
        if depth > 6:
            return True
        if t["k"] == "tuple":
            return all(self.inhabited(x, depth + 1) for x in t["tys"])
        if t["k"] == "adt":
            return any(all(self.inhabited(f[1], depth + 1) for f in w["fields"]) for w in t["variants"])
        return True

    def sole_value(self, ty):
        """The only value of a type, if it has just one."""
        t = self.types[ty]
        if t["k"] == "tuple":
            fs = [self.sole_value(x) for x in t["tys"]]
            return A(ty, 0, tuple(fs)) if None not in fs else None
        if t["k"] == "adt":
            ws = [i for i, w in enumerate(t["variants"]) if all(self.inhabited(f[1]) for f in w["fields"])]
            if len(ws) != 1:
                return None
            fs = [self.sole_value(f[1]) for f in t["variants"][ws[0]]["fields"]]
            return A(ty, ws[0], tuple(fs)) if None not in fs else None
        if t["k"] in ("fndef", "closure"):
            # only asked for what has no representation
            return A(ty, 0, ())
        return None

    def read(self, st, cell, path):
        try:
            v = st.mem[cell]
        except KeyError:
            v = self.empty_local(st, cell)
        for p in path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if p[0] == "f":
            if isinstance(v, O):
                v = self.expand(st, v, p[2])
            if isinstance(v, A):
                if p[2] is not None and v.v != p[2] and self.types[v.ty]["k"] == "adt" and self.types[v.ty]["ak"] == "enum":
                    raise Infeasible
                if p[1] >= len(v.f) or v.f[p[1]] is None:
                    x = self.sole_value(p[3]) if len(p) > 3 and p[3] is not None else None
                    if x is None:
                        raise Und("unset field")
                    return x
                return v.f[p[1]]
            if isinstance(v, N) and v.kind == "union":
                return v.f[0]
            raise Und("field of %r" % (v,))
        if p[0] == "i":
            return self.sget(st, v, p[1])
        if p[0] == "sl":
            if isinstance(v, T):
                v = self.tbytes(v)
            _, r = self.ssplit(st, v, p[1])
            l, _ = self.ssplit(st, r, p[2])
            return l
        raise Und("projection")

    def write(self, st, cell, path, x):
        if not path:
            st.mem[cell] = x
            return
        st.mem[cell] = self.wproj(st, st.mem.get(cell), path, x, cell)

    def wproj(self, st, v, path, x, cell=None):
        if not path:
            return x
        p = path[0]
        if p[0] == "f":
            if v is None:
                ty = self.cell_type(st, cell)
                v = A(ty, p[2] or 0, ())
            if isinstance(v, O):
                v = self.expand(st, v, p[2])
            if not isinstance(v, A):
                raise Und("store into %r" % (v,))
            f = list(v.f)
            while len(f) <= p[1]:
                f.append(None)
            f[p[1]] = self.wproj(st, f[p[1]], path[1:], x)
            return A(v.ty, v.v if p[2] is None else p[2], tuple(f))
        if p[0] == "i":
            old = self.sget(st, v, p[1]) if len(path) > 1 else None
            return self.sset(st, v, p[1], self.wproj(st, old, path[1:], x))
        if p[0] == "sl":
            l, r = self.ssplit(st, v, p[1])
            m, r = self.ssplit(st, r, p[2])
            m = self.wproj(st, m, path[1:], x)
            return self.scat(self.scat(l, m), r)
        raise Und("store")

    def cell_type(self, st, cell):
        if cell and cell[0] == "l":
            for f in st.fr:
                if f.uid == cell[1]:
                    return f.body["locals"][cell[2]]
        return self.celltype.get(cell)

    # ------------------------------------------------------------ operands
    def konst(self, st, ty, v):
        k = v["v"]
        if k == "int":
            return v["x"]
        if k == "zst":
            t = self.types[ty]
            if t["k"] == "tuple":
                return A(ty, 0, ())
            if t["k"] == "adt" and t["ak"] == "enum":
                return A(ty, 0, ())
            if t["k"] == "array":
                return S(())
            return A(ty, 0, ())
        if k == "f32":
            return F(("c", 32, v["bits"]))
        if k == "f64":
            return F(("c", 64, v["bits"]))
        if k == "str":
            c = ("c", "str", v["x"])
            st.mem[c] = T((v["x"],)) if v["x"] else T(())
            return R(c)
        if k == "ref":
            t = self.types[ty]
            inner = self.konst(st, t["ty"], v["x"])
            c = ("c", t["ty"], inner)
            st.mem[c] = inner
            self.celltype[c] = t["ty"]
            return R(c)
        if k in ("slice", "array"):
            s = S(tuple(("e", self.konst(st, v["ty"], x)) for x in v["x"]))
            if k == "array":
                return s
            c = ("c", "sl", s)
            st.mem[c] = s
            return R(c)
        if k == "agg":
            t = self.types[ty]
            if t["k"] == "tuple":
                tys = t["tys"]
            else:
                tys = [f[1] for f in t["variants"][v["variant"]]["fields"]]
                if t["name"] == "std::vec::Vec":
                    return S(())
                if t["name"] == "std::string::String":
                    return T(())
            return A(ty, v["variant"], tuple(self.konst(st, a, b) for a, b in zip(tys, v["x"])))
        return O(ty, ("const", ty))

    def operand(self, st, fr, o):
        k = o[0]
        if k == "const":
            return self.konst(st, o[1], o[2])
        if k == "rtcheck":
            return 0
        p = o[1]
        if not p[1]:
            try:
                return st.mem[("l", fr.uid, p[0])]
            except KeyError:
                return self.empty_local(st, ("l", fr.uid, p[0]))
        cell, path, _ = self.loc(st, fr, p)
        return self.read(st, cell, path)

    def op_ty(self, fr, o):
        if o[0] == "const":
            return o[1]
        if o[0] == "rtcheck":
            return None
        return self.place_ty(fr, o[1])

    def place_ty(self, fr, p):
        ty = fr.body["locals"][p[0]]
        for e in p[1]:
            t = self.types[ty]
            if e[0] == "f":
                ty = e[2]
            elif e[0] == "deref":
                if t["k"] in ("ref", "ptr"):
                    ty = t["ty"]
                elif t["k"] == "adt":
                    ty = t["args"][0]
            elif e[0] in ("i", "ci"):
                ty = t["ty"]
        return ty

    # ------------------------------------------------------------ rvalues; may fork: returns value or list
    def as_int(self, st, v):
        if isinstance(v, Bx):
            d = self.decide(st, v.k)
            if d is not None:
                return int(d)
            k = v.k
            if k[0] == "ne" and isinstance(k[1], L) and len(k[1].t) == 1 and k[1].c == 0 and k[1].t[0][1] == 1 and k[1].t[0][0].hi == 1:
                return k[1]
            return la(atom(("b2i", k), 0, 1))
        return v

    def as_cond(self, v):
        """A condition key from a boolean value."""
        if isinstance(v, Bx):
            return v.k
        if isinstance(v, int):
            return ("ge", 0 if v else -1)
        return ("ne", v)

    def flat(self, k):
        """A comparison of the number of a condition is that condition."""
        while k[0] in ("eq", "ne", "ge") and isinstance(k[1], L) and len(k[1].t) == 1 and k[1].t[0][0].key[0] == "b2i":
            (a, co), c = k[1].t[0], k[1].c
            no, yes = ((x == 0 if k[0] == "eq" else x != 0 if k[0] == "ne" else x >= 0) for x in (c, c + co))
            if no == yes:
                return ("ge", 0 if no else -1)
            k = a.key[1] if yes else self.neg(a.key[1])
        if k[0] in ("and", "or"):
            return (k[0], self.flat(k[1]), self.flat(k[2]))
        return k

    def mkb(self, st, k):
        k = self.flat(k)
        d = self.decide(st, k)
        return Bx(k) if d is None else int(d)

    def compare(self, st, op, a, b):
        if isinstance(a, F) or isinstance(b, F):
            return self.fcompare(st, op, a, b)
        if isinstance(a, R) or isinstance(b, R):
            if isinstance(a, R) and isinstance(b, R):
                r = a == b
                if op == "Eq":
                    return int(r)
                if op == "Ne":
                    return int(not r)
            raise Und("pointer comparison")
        a, b = self.as_int(st, a), self.as_int(st, b)
        if not isinstance(a, (int, L)) or not isinstance(b, (int, L)):
            raise Und("comparison of %r and %r" % (a, b))
        d = sub(a, b)
        if op == "Eq":
            return self.mkb(st, ("eq", d))
        if op == "Ne":
            return self.mkb(st, ("ne", d))
        if op == "Lt":
            return self.mkb(st, ("ge", add(mulc(d, -1), -1)))
        if op == "Le":
            return self.mkb(st, ("ge", mulc(d, -1)))
        if op == "Gt":
            return self.mkb(st, ("ge", add(d, -1)))
        if op == "Ge":
            return self.mkb(st, ("ge", d))
        if op == "Cmp":
            return N("cmp", d)
        raise Und("comparison " + op)

    def f_as_int(self, f):
        """An integer form equal to this float, if it is one exactly."""
        k = f.k
        lim = 1 << 24 if k[1] == 32 else 1 << 53
        if k[0] == "c":
            v = f_val(f)
            if v == v and abs(v) <= lim and v == int(v):
                return int(v)
            return None
        if k[0] == "i2f":
            return k[2]
        return None

    def frange(self, st, f):
        """Bounds of a float that is certainly a number, or None; rounding keeps the order."""
        k = f.k
        b = k[1]
        if k[0] == "c":
            v = f_val(f)
            return (v, v) if abs(v) < float("inf") else None
        if k[0] == "i2f":
            l, h = st.rng(k[2])
            if max(abs(l), abs(h)) > 2**64:
                return None
            return fround(b, float(l)), fround(b, float(h))
        if k[0] in ("neg", "abs"):
            r = self.frange(st, k[2])
            if r is None:
                return None
            l, h = r
            if k[0] == "neg":
                return -h, -l
            return (l, h) if l >= 0 else (-h, -l) if h <= 0 else (0.0, max(-l, h))
        if k[0] in ("add", "mul"):
            x, y = self.frange(st, k[2]), self.frange(st, k[3])
            if x is None or y is None:
                return None
            if max(map(abs, x + y)) > 1e18:
                return None
            if k[0] == "add":
                return fround(b, x[0] + y[0]), fround(b, x[1] + y[1])
            c = [u * v for u in x for v in y]
            return fround(b, min(c)), fround(b, max(c))
        return None

    def f2i(self, st, bits, signed, v):
        """The integer a float is converted to."""
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        a = la(atom(("f2i", bits, signed, v), lo, hi))
        r = self.frange(st, v)
        if r is not None:
            l, h = (max(lo, min(hi, int(x))) for x in r)
            if (l, h) != (lo, hi):
                st.setrange(a.t[0][0], l, h)
        return a

    def fcompare(self, st, op, a, b):
        x, y = self.f_as_int(a), self.f_as_int(b)
        bits = a.k[1]
        lim = 1 << 24 if bits == 32 else 1 << 53
        if x is not None and y is not None:
            l1, h1 = st.rng(x)
            l2, h2 = st.rng(y)
            if max(abs(l1), abs(h1), abs(l2), abs(h2)) <= lim:
                return self.compare(st, op, x, y)
        if op in ("Gt", "Ge"):
            a, b, op = b, a, {"Gt": "Lt", "Ge": "Le"}[op]
        if op in ("Eq", "Ne"):
            k = self.whole(a, b) or self.whole(b, a)
            if k is not None:
                return self.mkb(st, k if op == "Eq" else self.neg(k))
        x, y = self.frange(st, a), self.frange(st, b)
        if x is not None and y is not None:
            if op in ("Lt", "Le"):
                if x[1] < y[0] or (op == "Le" and x[1] == y[0]):
                    return 1
                if x[0] > y[1] or (op == "Lt" and x[0] == y[1]):
                    return 0
            elif op in ("Eq", "Ne") and (x[1] < y[0] or x[0] > y[1]):
                return int(op == "Ne")
        if op == "Ne":
            k = ("f", "Eq") + tuple(sorted((a, b), key=repr))
            d = self.decide(st, k)
            return Bx(("not", k)) if d is None else int(not d)
        if op == "Eq":
            a, b = sorted((a, b), key=repr)
        return self.mkb(st, ("f", op, a, b))

    def whole(self, a, b):
        """a == b in terms of a number being whole and its bounds, if that is what it tells."""
        bits = a.k[1]
        if a.k[0] in ("trunc", "floor", "ceil", "round") and a.k[2] == b:
            if a.k[0] == "trunc":
                return None
            return self.iswhole(b)
        if b.k[0] == "c" and f_val(b) == 0 and a.k[0] == "fract":
            return ("and", self.iswhole(a.k[2]), self.isfinite(a.k[2]))
        if b.k[0] == "c" and f_val(b) == 0 and a.k[0] == "rem" and a.k[3].k[0] == "c" and abs(f_val(a.k[3])) == 1:
            return ("and", self.iswhole(a.k[2]), self.isfinite(a.k[2]))
        if a.k[0] == "i2f" and isinstance(a.k[2], L) and len(a.k[2].t) == 1 and a.k[2].c == 0 and a.k[2].t[0][1] == 1:
            at = a.k[2].t[0][0]
            if at.key[0] == "f2i" and at.key[3] == b and b.k[0] != "i2f":
                lo, hi = (-(1 << (at.key[1] - 1)), (1 << (at.key[1] - 1)) - 1) if at.key[2] else (0, (1 << at.key[1]) - 1)
                return ("and", self.iswhole(b), ("and", ("f", "Le", f_const(bits, lo), b), ("f", "Le", b, f_const(bits, hi))))
        return None

    def iswhole(self, v):
        return ("f", "Eq") + tuple(sorted((F(("trunc", v.k[1], v)), v), key=repr))

    def isfinite(self, v):
        return ("f", "Lt", self.fop("abs", v.k[1], v), f_const(v.k[1], float("inf")))

    def fknown(self, st, k):
        """Whether a comparison with a constant follows from those the path has been through."""
        a, b = k[2], k[3]
        if k[1] == "Eq":
            return None
        v, c = (a, b) if b.k[0] == "c" else (b, a)
        if c.k[0] != "c" or v.k[0] == "c":
            return None
        base = v.k[2] if v.k[0] == "abs" else v
        lo, hi, number, no = None, None, False, []
        for q, t in st.fc.items():
            if q[0] != "f":
                continue
            x, y = q[2], q[3]
            if not t:
                no.append(q)
                continue
            if x == base or y == base:
                number = True
            if q[1] == "Eq":
                continue
            if x == base and y.k[0] == "c":
                e = (f_val(y), 0 if q[1] == "Lt" else 1)
                hi = e if hi is None else min(hi, e)
            elif y == base and x.k[0] == "c":
                e = (f_val(x), 0 if q[1] == "Lt" else -1)
                lo = e if lo is None else max(lo, e)
        if number:
            for q in no:
                x, y = q[2], q[3]
                if q[1] == "Eq":
                    continue
                if x == base and y.k[0] == "c":
                    e = (f_val(y), 0 if q[1] == "Le" else -1)
                    lo = e if lo is None else max(lo, e)
                elif y == base and x.k[0] == "c":
                    e = (f_val(x), 0 if q[1] == "Le" else 1)
                    hi = e if hi is None else min(hi, e)
        # lo: (x, 0) above x, (x, -1) from x on; hi: (x, 0) below x, (x, 1) up to x
        lo = None if lo is None else (lo[0], lo[1] == 0)
        hi = None if hi is None else (hi[0], hi[1] == 0)
        if base is not v:
            if lo is None or hi is None:
                return None
            if c is b and k[1] == "Lt" and f_val(c) == float("inf"):
                return True if lo[0] > -float("inf") and hi[0] < float("inf") else None
            return None
        x = f_val(c)
        if v is a:  # v < x or v <= x
            if hi is not None and (hi[0] < x or hi[0] == x and (hi[1] or k[1] == "Le")):
                return True
            if lo is not None and (lo[0] > x or lo[0] == x and (lo[1] or k[1] == "Lt")):
                return False
        else:  # x < v or x <= v
            if lo is not None and (lo[0] > x or lo[0] == x and (lo[1] or k[1] == "Le")):
                return True
            if hi is not None and (hi[0] < x or hi[0] == x and (hi[1] or k[1] == "Lt")):
                return False
        return None

    def fop(self, op, bits, *args):
        if all(a.k[0] == "c" for a in args):
            try:
                return f_const(bits, float_op(op, [f_val(a) for a in args]))
            except OverflowError:
                pass
        if op == "div" and args[1].k[0] == "c":
            # division by a power of two is multiplication by its reciprocal
            d = f_val(args[1])
            if d == d and abs(d) not in (0.0, float("inf")) and abs(math.frexp(d)[0]) == 0.5 and abs(math.frexp(d)[1]) < 120:
                op, args = "mul", (args[0], f_const(bits, 1 / d))
        if op in ("add", "mul"):
            args = tuple(sorted(args, key=repr))
        if op == "sub":
            # a - b and a + (-b) are the same operation
            return self.fop("add", bits, args[0], self.fop("neg", bits, args[1]))
        if op == "neg" and args[0].k[0] == "neg":
            return args[0].k[2]
        if op == "neg" and args[0].k[0] == "i2f" and isinstance(args[0].k[2], L):
            pass
        if op == "abs" and args[0].k[0] in ("neg", "abs"):
            return self.fop("abs", bits, args[0].k[2])
        return F((op, bits) + tuple(args))

    def binop(self, st, op, a, b, ty):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            return self.compare(st, op, a, b)
        if isinstance(a, F):
            m = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem"}
            if op in m:
                return self.fop(m[op], a.k[1], a, b)
            raise Und("float " + op)
        if op == "Offset":
            raise Und("pointer arithmetic")
        t = self.types[ty] if ty is not None else None
        if t is not None and t["k"] == "bool":
            if op in ("BitAnd", "BitOr", "BitXor"):
                ka, kb = self.as_cond(a), self.as_cond(b)
                if op == "BitAnd":
                    return self.mkb(st, ("and", ka, kb))
                if op == "BitOr":
                    return self.mkb(st, ("or", ka, kb))
                return self.mkb(st, ("or", ("and", ka, self.neg(kb)), ("and", self.neg(ka), kb)))
        a, b = self.as_int(st, a), self.as_int(st, b)
        if not isinstance(a, (int, L)) or not isinstance(b, (int, L)):
            raise Und("%s of %r and %r" % (op, a, b))
        r = self.raw(st, op, a, b, t)
        if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return r
        return self.wrap(st, r, ty)

    def raw(self, st, op, a, b, t):
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return self.mul(st, a, b)
        bits = t["bits"]
        signed = t["signed"]
        if op in ("Div", "Rem"):
            b = st.simp(b)
            a = st.simp(a)
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    raise Infeasible
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                return q if op == "Div" else a - q * b
            if isinstance(b, int) and b > 0 and st.rng(a)[0] >= 0:
                return self.divc(st, a, b) if op == "Div" else self.remc(st, a, b)
            k = "irem" if op == "Rem" else "idiv"
            return la(atom((k, a, b), *quotient_range(k, srange(a), srange(b))))
        if op in ("Shl", "ShlUnchecked"):
            b = st.simp(b)
            if isinstance(b, int):
                return mulc(a, 1 << (b % bits))
            if isinstance(a, int):
                l, h = st.rng(b)
                return la(atom(("shl", a, b), 0, (1 << bits) - 1))
        if op in ("Shr", "ShrUnchecked"):
            b = st.simp(b)
            if isinstance(b, int):
                if isinstance(a, int):
                    return a >> (b % bits)
                return self.divc(st, a, 1 << (b % bits))
        if op in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, op, st.simp(a), st.simp(b), bits, signed)
        raise Und("operator %s on %r, %r" % (op, a, b))

    def bitop(self, st, op, a, b, bits, signed):
        if isinstance(a, int) and isinstance(b, int):
            return a & b if op == "BitAnd" else a | b if op == "BitOr" else a ^ b
        if isinstance(a, int):
            a, b = b, a
        la_, ha = st.rng(a)
        lb, hb = st.rng(b)
        if la_ >= 0 and lb >= 0 and ha <= 1 and hb <= 1 and any(isinstance(x, L) and any(y.key[0] == "b2i" for y, _ in x.t) for x in (a, b)):
            # conditions as numbers
            ka, kb = self.flat(self.as_cond(a)), self.flat(self.as_cond(b))
            if op == "BitAnd":
                k = ("and", ka, kb)
            elif op == "BitOr":
                k = ("or", ka, kb)
            else:
                k = ("or", ("and", ka, self.neg(kb)), ("and", self.neg(ka), kb))
            return self.as_int(st, self.mkb(st, k))
        if op == "BitAnd":
            if isinstance(b, int) and b < 0 and -b & (-b - 1) == 0 and la_ >= 0:
                m = -b
                return sub(a, self.remc(st, a, m))
            if isinstance(b, int) and b >= 0:
                if b == 0:
                    return 0
                if b & (b + 1) == 0:
                    return self.remc(st, a, b + 1)
                if la_ >= 0:
                    full = (1 << ha.bit_length()) - 1
                    if b & full == full:
                        return a
                    if b & full == 0:
                        return 0
                    # contiguous mask 2^h - 2^l
                    low = b & -b
                    if (b + low) & b == 0 and b + low > full:
                        return sub(a, self.remc(st, a, low))
                    if (b + low) & b == 0:
                        x = self.remc(st, a, b + low)
                        return sub(x, self.remc(st, x, low))
        if op in ("BitOr", "BitXor") and la_ >= 0 and lb >= 0:
            # disjoint bits: one is a multiple of 2^m above the other
            for x, y, hy in ((a, b, hb), (b, a, ha)):
                m = 1 << hy.bit_length()
                if isinstance(x, int):
                    if x % m == 0:
                        return add(x, y)
                elif x.c % m == 0 and all(k % m == 0 for _, k in x.t):
                    return add(x, y)
            if isinstance(b, int) and b == 0:
                return a
        if la_ >= 0 and lb >= 0:
            if fmt(a) > fmt(b) and not isinstance(b, int):
                a, b = b, a
        return la(atom(("bit", op[3:], a, b), *bits_range(op[3:], srange(a), srange(b))))

    def f2i_const(self, v, bits, signed):
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if v != v:
            return 0
        if v == float("inf"):
            return hi
        if v == float("-inf"):
            return lo
        return max(lo, min(hi, int(v)))

    def cast(self, st, kind, v, fty, ty):
        t = self.types[ty]
        if kind.startswith("IntToInt"):
            v = self.as_int(st, v)
            if isinstance(v, O):
                v = la(self.odiscr(st, v))
            if isinstance(v, A):
                v = self.types[v.ty]["variants"][v.v]["discr"]
            return self.wrap(st, v, ty)
        if kind.startswith("IntToFloat"):
            v = st.simp(self.as_int(st, v))
            if isinstance(v, int):
                return f_const(t["bits"], v)
            return F(("i2f", t["bits"], v))
        if kind.startswith("FloatToInt"):
            if v.k[0] == "c":
                return self.f2i_const(f_val(v), t["bits"], t["signed"])
            if v.k[0] == "i2f":
                x = v.k[2]
                l, h = st.rng(x)
                lim = 1 << 24 if v.k[1] == 32 else 1 << 53
                lo, hi = self.irange(ty)
                if -lim <= l and h <= lim and lo <= l and h <= hi:
                    return x
            return self.f2i(st, t["bits"], t["signed"], v)
        if kind.startswith("FloatToFloat"):
            b = t["bits"]
            if v.k[0] == "c":
                return f_const(b, f_val(v))
            if v.k[1] == b:
                return v
            if v.k[0] == "i2f":
                l, h = st.rng(v.k[2])
                if max(abs(l), abs(h)) <= (1 << 24) or b < v.k[1] and max(abs(l), abs(h)) <= (1 << 53):
                    return F(("i2f", b, v.k[2]))
            if b == 32 and v.k[0] == "mul" and len(v.k) == 4:
                # scaling by a power of two commutes with rounding
                for c, x in ((v.k[2], v.k[3]), (v.k[3], v.k[2])):
                    if c.k[0] == "c" and abs(math.frexp(f_val(c))[0]) == 0.5 and -40 < math.frexp(f_val(c))[1] < 40 and x.k[0] == "i2f":
                        y = self.cast(st, kind, x, fty, ty)
                        if y.k[0] == "i2f":
                            return self.fop("mul", 32, y, f_const(32, f_val(c)))
            return F(("f2f", b, v))
        if kind.startswith("PtrToPtr") or kind.startswith("PointerCoercion") or "Coercion" in kind:
            return v
        if kind.startswith(("Transmute", "BoxDerefTransmute")):
            if isinstance(v, A):
                p = unwrap_ptr(v)
                if isinstance(p, R):
                    return p if t["k"] in ("ptr", "ref") else wrap_ptr(self, ty, p)
            if isinstance(v, R):
                return v if t["k"] in ("ptr", "ref") else wrap_ptr(self, ty, v)
            if t["k"] == "float" and isinstance(v, (int, L)):
                if isinstance(v, int):
                    return F(("c", t["bits"], v & ((1 << t["bits"]) - 1)))
                return F(("frombits", t["bits"], v))
            if t["k"] == "int" and isinstance(v, (int, L)):
                return self.wrap(st, v, ty)
            if t["k"] == "int" and isinstance(v, F) and v.k[0] == "c":
                return v.k[2]
            if isinstance(v, A) and v.ty == ty:
                return v
        raise Und("cast %s to %s" % (kind, t["s"]))

    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "addr":
            cell, path, _ = self.loc(st, fr, r[2] if k == "ref" else r[1])
            if any(p[0] == "i" and not isinstance(p[1], int) for p in path):
                try:
                    self.read(st, cell, path)
                except Pin:
                    raise
                except Und:
                    pass
            return R(cell, path)
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, self.op_ty(fr, r[2]))
        if k == "cbin":
            a = self.as_int(st, self.operand(st, fr, r[2]))
            b = self.as_int(st, self.operand(st, fr, r[3]))
            ty = self.op_ty(fr, r[2])
            t = self.types[ty]
            if r[1] in ("Shl", "Shr"):
                v = self.wrap(st, self.raw(st, r[1], a, b, t), ty)
                bad = self.mkb(st, ("or", ("ge", add(b, -t["bits"])), ("ge", add(mulc(b, -1), -1))))
                return A(dty, 0, (v, bad))
            if not isinstance(a, (int, L)) or not isinstance(b, (int, L)):
                raise Und("checked %s of %r" % (r[1], a))
            v = self.raw(st, r[1], a, b, t)
            lo, hi = self.irange(ty)
            bad = self.mkb(st, ("or", ("ge", add(v, -hi - 1)), ("ge", sub(lo - 1, v))))
            return A(dty, 0, (v, bad))
        if k == "cast":
            v = self.operand(st, fr, r[2])
            return self.cast(st, r[1], v, self.op_ty(fr, r[2]), r[3])
        if k == "agg":
            vals = tuple(self.operand(st, fr, o) for o in r[2])
            a = r[1]
            if a[0] == "array":
                return S(tuple(("e", v) for v in vals))
            if a[0] == "tuple":
                return A(dty, 0, vals)
            if a[0] == "adt":
                if a[3] >= 0:
                    return N("union", vals[0])
                return A(a[1], a[2], vals)
            if a[0] == "closure":
                return A(a[1], 0, vals)
            if a[0] == "rawptr":
                p, m = vals
                if isinstance(p, R):
                    if isinstance(m, A):
                        return p
                    return R(p.cell, p.path + (("sl", 0, m),))
            raise Und("aggregate " + a[0])
        if k == "discr":
            cell, path, _ = self.loc(st, fr, r[1])
            v = self.read(st, cell, path)
            return self.discr(st, v)
        if k == "len":
            cell, path, _ = self.loc(st, fr, r[1])
            return self.slen(self.read(st, cell, path))
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(v, Bx):
                    return Bx(self.neg(v.k))
                ty = self.op_ty(fr, r[2])
                if self.types[ty]["k"] == "bool":
                    if isinstance(v, int):
                        return 1 - v
                    return Bx(("eq", v))
                lo, hi = self.irange(ty)
                return sub(lo + hi, v) if lo == 0 else sub(-1, v)
            if r[1] == "Neg":
                if isinstance(v, F):
                    return self.fop("neg", v.k[1], v)
                return self.wrap(st, mulc(v, -1), self.op_ty(fr, r[2]))
            if r[1] == "PtrMetadata":
                if isinstance(v, O):
                    v = self.oref(st, v)
                return self.slen(self.read(st, v.cell, v.path))
            raise Und("unary " + r[1])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if r[2] >= 0 and r[2] <= 64:
                return S((("e", v),) * r[2])
            return S((("rep", r[2], v),))
        raise Und("rvalue " + k)

    def discr(self, st, v):
        if isinstance(v, A):
            t = self.types[v.ty]
            if t["k"] == "adt" and t["ak"] == "enum":
                return t["variants"][v.v]["discr"]
            return 0
        if isinstance(v, O):
            t = self.types[v.ty]
            a = self.odiscr(st, v)
            ds = [x["discr"] for x in t["variants"]]
            if ds == list(range(len(ds))):
                return la(a)
            if ds == list(range(ds[0], ds[0] + len(ds))):
                return add(la(a), ds[0])
            raise Und("sparse discriminants")
        if isinstance(v, N) and v.kind == "cmp":
            return v
        raise Und("discriminant of %r" % (v,))

    # ------------------------------------------------------------ loops
    def heads(self, body):
        h = body.get("heads")
        if h is None:
            h = body["heads"] = find_loops(body)
        return h

    # ------------------------------------------------------------ stepping
    def push_frame(self, st, inst_id, args, dest, ret):
        inst = self.insts[inst_id]
        body = inst["body"]
        if len(st.fr) > self.callstack_limit:
            raise Und("call depth")
        f = Frame()
        self.uid += 1
        f.uid = self.uid
        f.inst, f.body, f.bb, f.i = inst_id, body, 0, 0
        f.dest, f.ret, f.prev, f.loops, f.summ = dest, ret, -1, None, None
        f.tag = None
        st.fr.append(f)
        self.maxdepth = max(self.maxdepth, len(st.fr))
        for n, a in enumerate(args):
            st.mem[("l", f.uid, n + 1)] = a
        self.stats["insts"].add(inst_id)
        return f

    def goto(self, fr, bb):
        fr.prev = fr.bb
        fr.bb = bb
        fr.i = 0
        fr.done = 0

    def finish(self, st, kind, val):
        return Outcome(self, st, kind, val)

    def run(self, work, stop=None):
        """Explore from the given states. Returns (outcomes, back states)."""
        outs, backs = [], []
        work = list(work)
        n = 0
        while work:
            st = work.pop()
            n += 1
            if n > self.maxpaths:
                outs.append(Outcome(self, st, "undecided", "path budget"))
                break
            while True:
                if self.deadline and self.stats["steps"] % 64 == 0 and time.time() > self.deadline:
                    outs.append(Outcome(self, st, "undecided", "time budget"))
                    return outs, backs
                fr = st.fr[-1]
                if fr.i == 0 and fr.bb in self.heads(fr.body):
                    if stop and fr.uid == stop[0] and fr.bb == stop[1] and fr.prev in stop[2]:
                        backs.append(st)
                        break
                    try:
                        nxt = self.at_head(st, fr)
                    except Und as e:
                        outs.append(Outcome(self, st, "undecided", str(e)))
                        break
                    except Infeasible:
                        break
                    except INTERNAL as e:
                        outs.append(Outcome(self, st, "undecided", "internal: %r" % e))
                        break
                    if nxt is not None:
                        work.extend(nxt)
                        break
                    fr = st.fr[-1]
                if stop and fr.i == 0 and fr.uid == stop[0] and fr.bb not in stop[2]:
                    self.left += 1
                    break  # left the loop
                try:
                    r = self.step(st, fr)
                except Pin as e:
                    try:
                        work.extend(s for s, _ in self.models.settle(self, st, e.i, e.v))
                    except Und as x:
                        outs.append(Outcome(self, st, "undecided", str(x), self.where(st)))
                    break
                except Und as e:
                    outs.append(Outcome(self, st, "undecided", str(e), self.where(st)))
                    break
                except Infeasible:
                    break
                except INTERNAL as e:
                    outs.append(Outcome(self, st, "undecided", "internal: %r" % e, self.where(st)))
                    break
                if r is None:
                    continue
                if isinstance(r, Outcome):
                    outs.append(r)
                    break
                if len(r) == 1:
                    st = r[0]
                    continue
                work.extend(reversed(r))
                break
        return outs, backs

    def where(self, st):
        out = []
        for f in st.fr:
            i = self.insts[f.inst]
            if i["crate"] in ("postscript", "typeface"):
                out.append(i["def"])
        return out[-3:]

    def step(self, st, fr):
        """Run one block. None: continue in the same state; list: successors; Outcome: finished."""
        self.stats["steps"] += 1
        b = fr.body["blocks"][fr.bb]
        uid = fr.uid
        mem = st.mem
        locs = fr.body["locals"]
        ss = b["s"]
        done = getattr(fr, "done", 0)
        fr.done = 0
        for at in range(done, len(ss)):
            s = ss[at]
            k = s[0]
            if k == "=":
                p = s[1]
                rv = s[2]
                try:
                    if not p[1]:
                        mem[("l", uid, p[0])] = self.rvalue(st, fr, rv, locs[p[0]])
                    else:
                        v = self.rvalue(st, fr, rv, self.place_ty(fr, p) if rv[0] in ("agg", "cbin") else None)
                        cell, path, _ = self.loc(st, fr, p)
                        self.write(st, cell, path, v)
                except Pin:
                    fr.done = at
                    raise
            elif k == "setd":
                cell, path, _ = self.loc(st, fr, s[1])
                try:
                    v = self.read(st, cell, path)
                except Und:
                    v = A(self.place_ty(fr, s[1]), s[2], ())
                self.write(st, cell, path, A(v.ty, s[2], v.f if isinstance(v, A) else ()))
            elif k == "assume":
                pass
            else:
                raise Und("statement " + k)
        t = b["t"]
        k = t[0]
        if k == "goto":
            self.goto(fr, t[1])
            return None
        if k == "switch":
            fr.done = len(ss)
            return self.switch(st, fr, t)
        if k == "call":
            try:
                return self.call(st, fr, t)
            except Pin as e:
                raise Und(str(e))
        if k == "assert":
            fr.done = len(ss)
            v = self.operand(st, fr, t[1])
            cond = self.as_cond(v)
            if not t[2]:
                cond = self.neg(cond)
            self.stats["asserts"] += 1
            d = self.decide(st, cond)
            if d is True:
                self.stats["panics_discharged"] += 1
                self.goto(fr, t[4])
                return None
            outs = []
            for s, ok in self.split_or(st, cond):
                f = s.fr[-1]
                if ok:
                    self.goto(f, t[4])
                    outs.append(s)
                else:
                    outs.append(("panic", s, t[3][0] + (":" + t[3][1] if isinstance(t[3][1], str) else "")))
            return self.mixed(outs)
        if k == "return":
            return self.ret(st, fr)
        if k == "drop":
            self.goto(fr, t[2])
            return None
        if k == "unreachable":
            raise Infeasible
        raise Und("terminator " + k)

    def mixed(self, outs):
        r = []
        for o in outs:
            if isinstance(o, tuple):
                s = o[1]
                s.fr[-1].tag = (o[0], o[2])
                r.append(s)
                # deferred: a marker frame that ends the path
                s.fr.append(EndFrame(self, s, o[0], o[2]))
            else:
                r.append(o)
        return r

    def split_or(self, st, k):
        """Fork on a condition, splitting negated disjunctions into convex cases."""
        d = self.decide(st, k)
        if d is not None:
            return [(st, d)]
        if k[0] in ("or", "and"):
            out = []
            if k[0] == "or":
                for s, v in self.split_or(st, k[1]):
                    if v:
                        out.append((s, True))
                    else:
                        out.extend(self.split_or(s, k[2]))
            else:
                for s, v in self.split_or(st, k[1]):
                    if not v:
                        out.append((s, False))
                    else:
                        out.extend(self.split_or(s, k[2]))
            return out
        return self.fork(st, k)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        branches, otherwise = t[2], t[3]
        if isinstance(v, int):
            for val, bb in branches:
                if val == v:
                    self.goto(fr, bb)
                    return None
            # negative discriminants are printed as unsigned
            if v < 0:
                for val, bb in branches:
                    if val in (v & 0xFF, v & 0xFFFF, v & 0xFFFFFFFF, v & U64, v & (2**128 - 1)):
                        self.goto(fr, bb)
                        return None
            self.goto(fr, otherwise)
            return None
        if isinstance(v, Bx):
            outs = []
            for s, b in self.split_or(st, v.k):
                f = s.fr[-1]
                tgt = otherwise
                for val, bb in branches:
                    if val == int(b):
                        tgt = bb
                self.goto(f, tgt)
                outs.append(s)
            return outs
        if isinstance(v, N) and v.kind == "cmp":
            outs = []
            d = v.f[0]
            for c, val in ((("ge", add(mulc(d, -1), -1)), -1), (("eq", d), 0), (("ge", add(d, -1)), 1)):
                s = st.copy()
                try:
                    dd = self.decide(s, c)
                    if dd is False:
                        continue
                    if dd is None:
                        s.nf += 1
                        if self.forklog is not None:
                            self.forklog.append(c)
                    self.assume(s, c)
                except Infeasible:
                    continue
                f = s.fr[-1]
                tgt = otherwise
                for x, bb in branches:
                    if x == val or (val < 0 and x in (255, 65535, U64, 2**128 - 1, 2**32 - 1)):
                        tgt = bb
                self.goto(f, tgt)
                outs.append(s)
            return outs
        if isinstance(v, L):
            ty = self.op_ty(fr, t[1])
            signed = self.types[ty].get("signed", False)
            bits = self.types[ty].get("bits", 64)
            # group the targets by block when the subject is one small atom
            x = v
            base = self.base_atom(("eq", x))
            if base is not None and st.maskof(base) is not None and not (len(x.t) == 1 and abs(x.t[0][1]) == 1 and x.t[0][0] is base):
                # partition the values of the only byte the subject depends on
                m = st.maskof(base)
                groups, rest = {}, m
                for val, bb in branches:
                    if signed and val >= 1 << (bits - 1):
                        val -= 1 << bits
                    cm = self.cond_mask(("eq", add(x, -val)), base)
                    if cm is None:
                        raise Und("switch subject")
                    if cm & rest:
                        groups[bb] = groups.get(bb, 0) | (cm & rest)
                        rest &= ~cm
                if rest:
                    groups[otherwise] = groups.get(otherwise, 0) | rest
                return self.switch_groups(st, fr, base, groups)
            if len(x.t) == 1 and abs(x.t[0][1]) == 1 and st.maskof(x.t[0][0]) is not None:
                a, co = x.t[0]
                m = st.maskof(a)
                groups = {}
                rest = m
                for val, bb in branches:
                    if signed and val >= 1 << (bits - 1):
                        val -= 1 << bits
                    av = (val - x.c) * co
                    if a.lo <= av <= a.hi:
                        bit = 1 << (av - a.lo)
                        if bit & m:
                            groups[bb] = groups.get(bb, 0) | bit
                            rest &= ~bit
                if rest:
                    groups[otherwise] = groups.get(otherwise, 0) | rest
                return self.switch_groups(st, fr, a, groups)
            outs = []
            cur = [st]
            for val, bb in branches:
                if signed and val >= 1 << (bits - 1):
                    val -= 1 << bits
                nxt = []
                for s0 in cur:
                    for s, b in self.fork(s0, ("eq", add(v, -val))):
                        if b:
                            self.goto(s.fr[-1], bb)
                            outs.append(s)
                        else:
                            nxt.append(s)
                cur = nxt
            for s in cur:
                self.goto(s.fr[-1], otherwise)
                outs.append(s)
            return outs
        raise Und("switch on %r" % (v,))

    def switch_groups(self, st, fr, a, groups):
        if len(groups) == 1:
            self.goto(fr, next(iter(groups)))
            return None
        if self.forklog is not None:
            self.forklog.append(("in", a, tuple(groups.values())))
        outs = []
        for bb, mm in groups.items():
            s = st.copy()
            s.setmask(a, mm)
            s.nf += 1
            self.goto(s.fr[-1], bb)
            outs.append(s)
        self.stats["forks"] += len(outs) - 1
        return outs

    def ret(self, st, fr):
        v = st.mem.get(("l", fr.uid, 0))
        if v is None:
            rt = fr.body["locals"][0]
            v = A(rt, 0, ())
        st.fr.pop()
        for n in range(len(fr.body["locals"])):
            st.mem.pop(("l", fr.uid, n), None)
        if not st.fr:
            return Outcome(self, st, "return", v)
        caller = st.fr[-1]
        cell, path = fr.dest
        self.write(st, cell, path, v)
        if fr.ret < 0:
            raise Infeasible
        self.goto(caller, fr.ret)
        return None

    # ------------------------------------------------------------ calls
    def call(self, st, fr, t):
        self.stats["calls"] += 1
        callee, fop, argops, dplace, target = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(st, fr, o) for o in argops]
        cell, path, _ = self.loc(st, fr, dplace)
        dest = (cell, path)
        dty = self.place_ty(fr, dplace)
        if callable(callee):
            return self.deliver(callee(self, st, args, dty), st, dest, target)
        if callee is None:
            v = self.operand(st, fr, fop) if fop else None
            ft = None
            if isinstance(v, A) and v.ty is not None:
                ft = self.types[v.ty]
            if ft and ft["k"] == "fndef":
                callee = ft["inst"]
            elif ft and ft["k"] == "closure":
                return self.call_closure(st, v, args, dest, target)
            else:
                raise Und("indirect call")
        if isinstance(callee, str):
            raise Und("unresolved call " + callee)
        return self.invoke(st, callee, args, dest, target, dty, t[7], t[8], t[9])

    def invoke(self, st, callee, args, dest, target, dty, orig=None, otys=(), nxt=-1):
        inst = self.insts[callee]
        ov = self.ov_cache.get(callee, 0)
        if ov == 0:
            ov = None
            for pred, fn in self.overrides:
                if pred(inst):
                    ov = fn
                    break
            self.ov_cache[callee] = ov
        if ov is not None:
            r = ov(self, st, inst, args, dty)
            if r is not NotImplemented:
                return self.deliver(r, st, dest, target)
        # calls of closures and function items
        if orig in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
            f = args[0]
            if isinstance(f, R):
                fv = self.read(st, f.cell, f.path)
                while isinstance(fv, R):
                    f = fv
                    fv = self.read(st, f.cell, f.path)
            else:
                fv = f
            if isinstance(fv, A):
                ft = self.types[fv.ty]
                tup = args[1]
                sub_args = list(tup.f) if isinstance(tup, A) else [tup]
                if ft["k"] == "closure":
                    return self.call_closure(st, fv, sub_args, dest, target, f if isinstance(f, R) else None)
                if ft["k"] == "fndef":
                    return self.invoke(st, ft["inst"], sub_args, dest, target, dty)
            raise Und("call through a value")
        key = (callee, orig, nxt)
        m = self.model_cache.get(key, 0)
        if m == 0:
            m = self.models.find(self, inst, orig, nxt, otys)
            self.model_cache[key] = m
        if m is not None:
            self.cur = (inst, orig, otys, nxt, dest, target)
            r = m(self, st, args, dty)
            if isinstance(r, Inline):
                self.push_frame_body(st, r, dest, target)
                return None
            return self.deliver(r, st, dest, target)
        if inst["body"] is None:
            v = self.construct(inst, args)
            if v is None:
                raise Und("unmodelled call " + inst["def"])
            return self.deliver(v, st, dest, target)
        self.push_frame(st, callee, args, dest, target)
        return None

    def construct(self, inst, args):
        """The value a constructor used as a function makes."""
        t = self.types[inst["ret"]]
        if t["k"] == "adt":
            for i, w in enumerate(t["variants"]):
                if inst["def"].split("::")[-1] == w["name"] and len(w["fields"]) == len(args):
                    return A(inst["ret"], i, tuple(args))
        return None

    def push_frame_body(self, st, inl, dest, target):
        f = Frame()
        self.uid += 1
        f.uid = self.uid
        f.inst, f.body, f.bb, f.i = inl.inst, inl.body, 0, 0
        f.dest, f.ret, f.prev, f.loops, f.summ, f.tag = dest, target, -1, None, None, None
        st.fr.append(f)
        for n, a in enumerate(inl.args):
            st.mem[("l", f.uid, n + 1)] = a

    def call_closure(self, st, cv, args, dest, target, ref=None):
        ct = self.types[cv.ty]
        for i in ct["insts"]:
            if i >= 0 and self.insts[i]["body"] and self.insts[i]["kind"] != "shim":
                inst = i
                break
        else:
            raise Und("closure body")
        body = self.insts[inst]["body"]
        st_ty = self.types[body["locals"][1]]
        if st_ty["k"] == "ref":
            if ref is None:
                ref = self.alloc(st, cv, cv.ty)
            selfv = ref
        else:
            selfv = cv
        if body["spread"] > 0:
            a = [selfv, A(body["locals"][body["spread"]], 0, tuple(args))]
        else:
            a = [selfv] + list(args)
        self.push_frame(st, inst, a, dest, target)
        return None

    def deliver(self, r, st, dest, target):
        """r: a value; or a list of (state, value); value may be Panic."""
        if not isinstance(r, list):
            r = [(st, r)]
        outs = []
        for s, v in r:
            if isinstance(v, Panic):
                outs.append(("panic", s, v.msg))
                continue
            self.write(s, dest[0], dest[1], v)
            if target < 0:
                continue
            self.goto(s.fr[-1], target)
            outs.append(s)
        return self.mixed(outs)

    # ------------------------------------------------------------ loop summarisation
    def at_head(self, st, fr):
        H = fr.bb
        loop = self.heads(fr.body)[H]
        if fr.loops is None:
            fr.loops, fr.summ = {}, set()
        unrolling = self.mode == "unroll" or (self.mode == "mixed" and fr.inst >= 0 and self.insts[fr.inst]["crate"] == "postscript")
        inside = fr.prev in loop
        if not inside:
            fr.loops[H] = (0, st.nf)
            fr.summ.discard(H)
            fr.walk = tuple(h for h in fr.walk if h != H)
            it = 0
        else:
            if H in fr.summ:
                return []  # covered by the loop invariant
            it, nf = fr.loops[H]
            it += 1
            fr.loops[H] = (it, st.nf)
            if it > self.maxunroll:
                raise Und("loop bound")
            if H in fr.walk:
                return None
            if unrolling:
                if st.nf > nf and it > self.unroll:
                    self.cut += 1
                    return []
                return None
            if st.nf == nf:
                if it == 64 and fr.first and H in fr.first:
                    s = fr.first[H].copy()
                    return self.accelerate(s, s.fr[-1], H, loop, force=True)
                if it == 512:
                    return self.accelerate(st, fr, H, loop, force=True)
                return None
        if unrolling:
            return None
        if it < self.unroll and self.mode != "mixed":
            return None
        # does one more iteration depend on anything unknown?
        return self.accelerate(st, fr, H, loop)

    def probe(self, st, H, loop):
        s = st.copy()
        f = s.fr[-1]
        f.prev = -1
        log, self.forklog = self.forklog, []
        saved_cov = None
        # start past the head check
        f.summ = set(f.summ or ())
        outs, backs = [], []
        try:
            r = self.step(s, f)
            work = [s] if r is None else ([] if isinstance(r, Outcome) else r)
            outs, backs = self.run(work, (f.uid, H, loop))
        except Infeasible:
            pass
        forks = self.forklog
        self.forklog = log
        if log is not None:
            log.extend(forks)
        return outs, backs, forks

    def accelerate(self, st, fr, H, loop, nsplit=0, force=False):
        self.left = 0
        outs, backs, forks = self.probe(st, H, loop)
        bound = not self.left and not outs
        single = len(backs) == 1
        if self.hangs(backs, H, loop):
            raise Und(HANG)
        if not backs:
            return None  # never comes back: just go through it (an undecided body is met there)
        if all(b.nf == st.nf for b in backs) and not forks and not (force and self.left):
            if self.left:
                # a failing read may leave the loop at every turn: remember where to summarise from if it is long
                fr.first = dict(fr.first or {})
                fr.first[H] = st.copy()
            return None  # fully determined: keep unrolling
        self.stats["loops"] += 1
        loopid = (H, st.fresh(), self.insts[fr.inst]["def"] if fr.inst >= 0 else "native")
        k = atom(("k", loopid, st.ev and len(st.ev)), 0, BIG)
        cls = {}
        first = backs
        cells = list(st.mem)

        def leafdiffs(g, bs):
            found = {}
            for b in bs:
                for c in cells:
                    if c in b.mem and b.mem[c] is not g.mem[c]:
                        for p in vdiff(g.mem[c], b.mem[c], ()):
                            found[(c, p)] = True
            return found

        for lp in leafdiffs(st, backs):
            # the first iteration suggests the stride; the generic iteration confirms or refutes it
            cls[lp] = ("unk",)
            try:
                c0 = self.classify(st, st, backs, lp, ("unk",), k, cls, loopid)
                if c0[0] == "ind" and isinstance(c0[1], int):
                    cls[lp] = c0
                elif c0[0] in ("push", "pushx"):
                    cls[lp] = ("pushx", self.elem_type(st, lp[0], lp[1]))
                elif c0[0] in ("fill", "fillx"):
                    cls[lp] = ("fillx", self.elem_type(st, lp[0], lp[1]), c0[2])
                elif c0[0] == "all":
                    cls[lp] = c0
            except Und:
                pass
        fuid = [0]
        unk_val = {}

        def build():
            g = st.copy()
            for (c, p), cl in sorted(cls.items(), key=lambda x: len(x[0][1])):
                v0 = vget(self, st, c, p)
                g.mem[c] = vset(self, g.mem[c], p, self.generic(st, g, c, p, v0, cl, k, loopid))
            return g

        stable = False
        for rnd in range(10):
            # drop leaves below others
            for lp in list(cls):
                for n in range(len(lp[1])):
                    if (lp[0], lp[1][:n]) in cls:
                        del cls[lp]
                        break
            g = build()
            g.inexact = g.inexact
            self.walked = False
            outs, backs, forks = self.probe(g, H, loop)
            if self.walked and single and not force:
                fr.walk = fr.walk + (H,)
                return None  # a walk through a table of constants
            # unswitching on loop-invariant conditions
            inv = self.invariant_fork(st, forks, k, loopid)
            if inv is not None and not force and len(first) < 9 and not any(self.probe(b, H, loop)[1] for b in first):
                return None  # there is no further turn
            if inv is not None and nsplit < 24:
                return self.split_on(st, fr, H, loop, inv, nsplit)
            if any(o.kind == "undecided" for o in outs):
                bad = [lp for lp, cl in cls.items() if cl[0] == "ind"]
                raise Und("loop body: " + [str(o.val) for o in outs if o.kind == "undecided"][0])
            if not backs:
                raise Und("loop body never repeats")
            new = leafdiffs(g, backs)
            changed = False
            for lp in new:
                if lp in cls:
                    continue
                up = [q for q in cls if q[0] == lp[0] and q[1] == lp[1][: len(q[1])]]
                if up:
                    continue
                # covered from above: a shorter difference replaces longer ones
                cls[lp] = ("unk",)
                changed = True
            for lp, cl in list(cls.items()):
                ncl = self.classify(st, g, backs, lp, cl, k, cls, loopid)
                if ncl != cl:
                    cls[lp] = ncl
                    changed = True
            if not changed:
                stable = True
                break
        if not stable:
            raise Und("loop summary does not converge")
        unresolved = [lp for lp, cl in cls.items() if cl[0] in ("unk", "pushn", "all")]
        if unresolved and bound and not force and fr.loops[H][0] < 16:
            return None  # another turn is certain and the summary would forget something: go through it
        if unresolved and not force and self.few(first, H, loop):
            return None  # so would it here, and there are few turns
        # guards of the iterations taken so far
        self.invariants(st, g, backs, k)
        f = g.fr[-1]
        f.summ.add(H)
        g.ev = g.ev + (("loop", self.insts[fr.inst]["def"] if fr.inst >= 0 else "native", la(k)),)
        # continue past the head
        f.prev = -1
        r = self.step(g, f)
        if r is None:
            return [g]
        return [] if isinstance(r, Outcome) else r

    def few(self, backs, H, loop):
        """Is the loop over in a handful of turns whatever happens?"""
        for _ in range(8):
            if not backs:
                return True
            if len(backs) > 24:
                return False
            backs = [b for a in backs for b in self.probe(a, H, loop)[1]]
        return not backs

    def hangs(self, backs, H, loop):
        """Does another turn lead from one of these states to that very state, whatever is unknown?"""
        if not self.sticky:
            return False
        over = [b for b in backs if any(e[0] == "dead" for e in b.ev)]
        live = [b for b in backs if not any(e[0] == "dead" for e in b.ev)]
        for b in over[:3] + live[:3]:
            # one more turn settles what is evaluated for the first time
            _, first, _ = self.probe(b, H, loop)
            for a in first[:3]:
                if a.nf != b.nf:
                    continue
                _, again, _ = self.probe(a, H, loop)
                for s in again:
                    if s.nf == a.nf and not any(e[0] == "fail" for e in s.ev[len(a.ev):]) and all(c in s.mem and not vdiff(v, s.mem[c], ()) for c, v in a.mem.items()):
                        return True
        return False

    def invariant_fork(self, st, forks, k, loopid):
        for c in forks:
            if c[0] == "in":
                at = {c[1]} | atoms_of(c[1])
            else:
                at = atoms_of(c)
            ok = True
            for a in at:
                if a is k or a.bound or self.loop_dep(a, loopid):
                    ok = False
                    break
                if any(isinstance(y, tuple) and len(y) == 3 and isinstance(y[0], int) and isinstance(y[1], int) and isinstance(y[2], str) and y[1] > loopid[1] for y in flat(a.key)):
                    ok = False  # left behind by a loop within
                    break
                if a.key[0] == "k":
                    ok = ok and any(a in atoms_of(v) for v in st.mem.values() if isinstance(v, (L, A, S)))
            if ok and at:
                if c[0] == "in":
                    m = st.maskof(c[1])
                    if m is not None and sum(1 for g in c[2] if g & m) > 1:
                        return c
                elif self.decide(st, c) is None:
                    return c
        return None

    def loop_dep(self, a, loopid):
        return loopid in flat(a.key)

    def split_on(self, st, fr, H, loop, c, nsplit):
        out = []
        if c[0] == "in":
            # split into the classes the loop itself distinguishes
            a = c[1]
            m = st.maskof(a)
            cases = [m & g for g in c[2] if m & g]
            if len(cases) > 40:
                raise Und("too many cases")
            for b in cases:
                s = st.copy()
                s.setmask(a, b)
                s.nf += 1
                r = self.accelerate(s, s.fr[-1], H, loop, nsplit + 1)
                if r is None:
                    out.extend(self.enter(s))
                else:
                    out.extend(r)
            return out
        for s, _ in self.fork(st.copy(), c):
            r = self.accelerate(s, s.fr[-1], H, loop, nsplit + 1)
            if r is None:
                out.extend(self.enter(s))
            else:
                out.extend(r)
        return out

    def enter(self, s):
        r = self.step(s, s.fr[-1])
        if r is None:
            return [s]
        return [] if isinstance(r, Outcome) else r

    def generic(self, st, g, c, p, v0, cl, k, loopid):
        K = la(k)
        if cl[0] == "ind":
            return add(v0, self.mul(g, cl[1], K))
        if cl[0] == "sum":
            return add(v0, self.sum(g, cl[1], k, K))
        if cl[0] == "push":
            body = cl[1]
            d = BOUND[depth(body)]
            return self.scat(v0, S((("rep", K, subst(body, {k: la(d)}, self.rebuild)),)))
        if cl[0] == "pushx":
            return self.scat(v0, S((("op", ("havoc", loopid, c, p), K, cl[1]),)))
        if cl[0] in ("fill", "fillx"):
            # each turn replaces the next element, and there was one every time
            i = add(cl[2], K)
            self.assume(g, ("ge", sub(self.slen(v0), i)))
            if cl[0] == "fill":
                d = BOUND[depth(cl[1])]
                new = ("rep", K, subst(cl[1], {k: la(d)}, self.rebuild))
            else:
                new = ("op", ("havoc", loopid, c, p), K, cl[1])
            return S(self.ssplit(g, v0, cl[2])[0].segs + (new,) + self.ssplit(g, v0, i)[1].segs)
        if cl[0] == "pushn":
            return self.scat(v0, S((("op", ("havoc", loopid, c, p), la(atom(("len", ("havoc", loopid, c, p)), 0, 2**40, exact=False)), cl[1]),)))
        # unknown
        key = ("havoc", loopid, c, tuple(x if not isinstance(x, tuple) else x[:3] for x in p))
        if isinstance(v0, (int, L, Bx)):
            ty = self.leaf_type(st, c, p)
            if ty is not None and self.types[ty]["k"] in ("int", "bool", "char"):
                return self.opaque(g, ty, key)
            return la(atom(("in", key), 0, U64, exact=False))
        if isinstance(v0, F):
            return F(("in", v0.k[1], key))
        if isinstance(v0, S):
            el = self.elem_type(st, c, p)
            if cl[0] == "all":
                return S((("op", key, cl[1] if len(cl) > 1 else la(atom(("len", key), 0, 2**40, exact=False)), el),))
            return S(v0.segs + (("op", key, la(atom(("len", key), 0, 2**40, exact=False)), el),))
        if isinstance(v0, T):
            return T((() if cl[0] == "all" else v0.p) + (("x", key),))
        if isinstance(v0, N) and v0.kind == "map":
            return N("map", (), key, v0.f[2], v0.f[3])
        if isinstance(v0, (A, O)):
            return O(v0.ty, key)
        ty = self.leaf_type(st, c, p)
        if ty is not None:
            return self.opaque(g, ty, key)
        raise Und("loop-carried value %r" % (v0,))

    def leaf_type(self, st, c, p):
        ty = self.cell_type(st, c)
        for x in p:
            if ty is None:
                return None
            t = self.types[ty]
            if x[0] == "f":
                if t["k"] == "tuple":
                    ty = t["tys"][x[1]]
                elif t["k"] == "adt":
                    try:
                        ty = t["variants"][x[2] or 0]["fields"][x[1]][1]
                    except (IndexError, KeyError):
                        return None
                else:
                    return None
            else:
                return None
        return ty

    def elem_type(self, st, c, p):
        ty = self.leaf_type(st, c, p)
        if ty is None:
            return None
        t = self.types[ty]
        if t["k"] == "adt" and t["args"]:
            return t["args"][0]
        return t.get("ty")

    def sum(self, st, e, k, upto):
        """sum over j < upto of e(j), e an affine form over k."""
        c, t = lin(e)
        r = self.mul(st, c, upto)
        d = dict(t)
        dep = dict((a, co) for a, co in t if k in atoms_of(a) or a is k)
        for a, co in t:
            if a not in dep:
                r = add(r, self.mul(st, mulc(la(a), co), upto))
        # telescoping pairs: co*x(j+1) - co*x(j)
        for a in list(dep):
            co = dep.get(a)
            if not co or a is k:
                continue
            prev = subst(la(a), {k: add(la(k), -1)}, self.rebuild)
            if isinstance(prev, L) and len(prev.t) == 1 and prev.c == 0 and prev.t[0][1] == 1:
                b = prev.t[0][0]
                if dep.get(b) == -co:
                    dep[a] = dep[b] = 0
                    hi = subst(la(b), {k: upto}, self.rebuild)
                    lo = subst(la(b), {k: 0}, self.rebuild)
                    r = add(r, mulc(sub(hi, lo), co))
        for a, co in dep.items():
            if not co:
                continue
            if a is k:
                # k(k-1)/2
                r = add(r, mulc(la(atom(("tri", upto), 0, BIG)), co))
                continue
            ab = subst(la(a), {k: la(BOUND[0])}, self.rebuild)
            if isinstance(ab, L) and len(ab.t) == 1 and ab.c == 0 and ab.t[0][1] == 1:
                ab = ab.t[0][0]
            else:
                raise Und("sum")
            lo = 0 if ab.lo >= 0 else -BIG
            r = add(r, mulc(la(atom(("sum", ab, upto), lo, BIG)), co))
        return r

    def classify(self, st, g, backs, lp, cl, k, cls, loopid):
        c, p = lp
        v0 = vget(self, st, c, p)
        gv = vget(self, g, c, p)
        deltas = set()
        if isinstance(v0, (S, T)):
            # only at the end?
            if cl[0] == "all":
                return cl if len(cl) == 1 or all(isinstance(vget(self, b, c, p), S) and self.decide(b, ("eq", sub(self.slen(vget(self, b, c, p)), cl[1]))) for b in backs) else ("all",)
            news = [vget(self, b, c, p) for b in backs if c in b.mem]
            if isinstance(v0, S):
                grown = all(isinstance(v, S) and (seq_suffix(gv, v) is not None or run_extended(gv.segs, v.segs)) for v in news)
            else:
                grown = all(isinstance(v, T) and text_extended(gv.p, v.p) for v in news)
            if not grown:
                n = self.slen(v0) if isinstance(v0, S) else None
                if n is not None and all(isinstance(v, S) and self.decide(b, ("eq", sub(self.slen(v), self.slen(gv)))) for b, v in zip(backs, news)):
                    whole = ("all", n)
                else:
                    whole = ("all",)
                if isinstance(v0, S) and len(whole) > 1 and len(news) == len(backs):
                    at = [cl[2]] if cl[0] in ("fill", "fillx") else range(8) if g is st else ()
                    for s0 in at:
                        xs = [self.filled(b, gv, v, s0 if g is st else add(s0, la(k))) for b, v in zip(backs, news)]
                        if all(x is not None for x in xs):
                            if "havoc" in flat_val(tuple(xs)) or any(x != xs[0] for x in xs):
                                return ("fillx", self.elem_type(st, c, p), s0)
                            return ("fill", xs[0], s0)
                return whole
            if cl[0] in ("fill", "fillx"):
                return ("all",)
        for b in backs:
            if c not in b.mem:
                return ("unk",)
            try:
                bv = vget(self, b, c, p)
            except Und:
                return ("unk",)
            if isinstance(gv, (int, L)) and isinstance(bv, (int, L)):
                d = b.simp(sub(bv, gv))
                deltas.add(("i", d))
            elif isinstance(gv, S) and isinstance(bv, S):
                d = seq_suffix(gv, bv)
                if d is None:
                    deltas.add(("?",))
                else:
                    deltas.add(("s", d))
            else:
                deltas.add(("?",))
        if len(deltas) != 1:
            # the paths may agree under what each of them knows
            kinds = set(x[0] for x in deltas)
            if kinds <= {"i", "s"} and len(kinds) == 1 and len(backs) <= 12:
                per = []
                for b in backs:
                    bv = vget(self, b, c, p)
                    per.append((b, sub(bv, gv) if "i" in kinds else seq_suffix(gv, bv)))
                for x in sorted(deltas, key=lambda x: -len(repr(x))):
                    if all(self.same_under(b, x[1], y) for b, y in per):
                        deltas = {x}
                        break
        if len(deltas) != 1:
            if all(x[0] == "s" for x in deltas):
                if all(len(x[1]) == 1 and x[1][0][0] == "e" for x in deltas):
                    el = self.elem_type(st, c, p)
                    return ("pushx", el)
                return ("pushn", self.elem_type(st, c, p))
            return ("unk",)
        d = next(iter(deltas))
        if d[0] == "i":
            e = d[1]
            at = atoms_of(e)
            dep = [a for a in at if self.loop_dep(a, loopid)]
            if not dep:
                return ("ind", e)
            # depends on this loop's unknowns?
            bad = [a for a in dep if a is not k and "havoc" in flat(a.key)]
            if bad:
                return ("unk",)
            return ("sum", e)
        if d[0] == "s":
            segs = d[1]
            if len(segs) == 1 and segs[0][0] == "e":
                at = atoms_of(segs[0][1])
                bad = "havoc" in flat_val(segs[0][1])
                if bad:
                    return ("pushx", self.elem_type(st, c, p))
                return ("push", segs[0][1])
            return ("pushn", self.elem_type(st, c, p))
        return ("unk",)

    def filled(self, b, old, new, i):
        """What has been put into the place of element i of old to give new."""
        try:
            x = self.sget(b, new, i)
            if self.same_under(b, self.sset(b, old, i, x), new):
                return x
        except Und:
            pass
        return None

    def same_under(self, b, x, y):
        """x and y denote the same value in state b."""
        if x == y:
            return True
        if isinstance(x, (int, L)) and isinstance(y, (int, L)):
            return self.decide(b, ("eq", sub(x, y))) is True
        if isinstance(x, S) and isinstance(y, S):
            return self.same_under(b, x.segs, y.segs)
        if isinstance(x, A) and isinstance(y, A) and x.ty == y.ty and x.v == y.v and len(x.f) == len(y.f):
            return all(self.same_under(b, p, q) for p, q in zip(x.f, y.f))
        if isinstance(x, tuple) and isinstance(y, tuple):
            # segment lists
            try:
                x = self.live_segs(b, x)
                y = self.live_segs(b, y)
            except Und:
                return False
            if len(x) != len(y):
                return False
            for p, q in zip(x, y):
                if p[0] != q[0] or len(p) != len(q):
                    return False
                if p[0] == "e":
                    if not self.same_under(b, p[1], q[1]):
                        return False
                elif p[0] == "b":
                    if p[1] != q[1] or not self.same_under(b, p[2], q[2]) or not self.same_under(b, p[3], q[3]):
                        return False
                elif p[0] == "rep":
                    if p[2] != q[2] or not self.same_under(b, p[1], q[1]):
                        return False
                elif p != q:
                    return False
            return True
        return False

    def live_segs(self, b, segs):
        out = []
        for s in segs:
            n = self.seg_len(s)
            if s[0] == "e":
                out.append(s)
                continue
            if self.decide(b, ("eq", n)):
                continue
            m = None
            for j in range(1, 5):
                if self.decide(b, ("eq", add(n, -j))):
                    m = j
            if m is not None:
                out.extend(("e", self.seg_get(b, s, j)) for j in range(m))
            else:
                out.append(s)
        return tuple(out)

    def invariants(self, st, g, backs, k):
        """Facts about completed iterations: for all j < k the guard held; and linear consequences at k."""
        sets = []
        for b in backs:
            cs = set()
            for x in b.lin:
                if x not in g.lin:
                    cs.add(("ge", x))
            for x in b.ne:
                if x not in g.ne:
                    cs.add(("ne", x))
            for a, d in b.dom.items():
                o = g.dom.get(a)
                if o != d:
                    if d[2] is not None:
                        cs.add(("mask", a, d[2]))
                    cs.add(("ge", add(la(a), -d[0])))
                    cs.add(("ge", sub(d[1], la(a))))
            sets.append(cs)
        common = set.intersection(*sets) if sets else set()
        allc = []
        for cnd in sorted(common, key=repr):
            if cnd[0] == "mask":
                allc.append(cnd)
                continue
            at = atoms_of(cnd[1])
            if not at:
                continue
            allc.append(cnd)
            if cnd[0] == "ge" and k in at:
                s = subst(cnd[1], {k: add(la(k), -1)}, self.rebuild)
                z = subst(cnd[1], {k: -1}, self.rebuild)
                # only direct linear dependence on k
                if isinstance(s, L) and all(a is k or k not in atoms_of(a) for a, _ in s.t):
                    if self.decide(st, ("ge", z)):
                        try:
                            self.assume(g, ("ge", s))
                        except Infeasible:
                            pass
        if allc:
            d = BOUND[3]
            m = {k: la(d)}
            g.fa = g.fa + (("forall", la(k), tuple((c[0],) + tuple(subst(x, m, self.rebuild) if isinstance(x, L) else (subst(la(x), m, self.rebuild) if isinstance(x, Atom) else x) for x in c[1:]) for c in allc)),)
        if len(backs) > 1 or any(b.fc != g.fc for b in backs):
            g.fa = g.fa + (("choices", la(k), len(backs)),)

    # ------------------------------------------------------------ entry
    def start(self, root, args_fn):
        st = State()
        iid = self.root_ids[root] if isinstance(root, str) else root
        inst = self.insts[iid]
        f = self.push_frame(st, iid, [], None, -1)
        args = args_fn(self, st)
        for n, a in enumerate(args):
            st.mem[("l", f.uid, n + 1)] = a
        return st

    def analyse(self, root, args_fn):
        st = self.start(root, args_fn)
        outs, _ = self.run([st])
        return outs

    def call_next(self, o, root, args):
        """Continue from a finished outcome with another entry point."""
        st = o.st.copy()
        iid = self.root_ids[root]
        f = self.push_frame(st, iid, args, None, -1)
        return st


class Inline:
    def __init__(self, body, args, inst=-1):
        self.body, self.args, self.inst = body, args, inst


class Panic:
    def __init__(self, msg):
        self.msg = msg


_end_bodies = {}


def EndFrame(en, st, kind, msg):
    key = (kind, msg)
    body = _end_bodies.get(key)
    if body is None:
        body = _end_bodies[key] = {"locals": [], "blocks": [{"s": [], "t": ["end", kind, msg]}], "heads": {}, "argc": 0, "spread": -1}
    f = Frame()
    f.uid, f.inst, f.body, f.bb, f.i = -1, -1, body, 0, 0
    f.dest = f.ret = f.prev = f.loops = f.summ = f.tag = None
    return f


_step0 = Engine.step


def _step(self, st, fr):
    b = fr.body["blocks"][fr.bb]
    t = b["t"]
    if t[0] == "callcl":
        # a synthetic body calls the closure held in local 3 through the reference in local t[1]
        for s in b["s"]:
            p, rv = s[1], s[2]
            st.mem[("l", fr.uid, p[0])] = self.rvalue(st, fr, rv, fr.body["locals"][p[0]])
        ref = st.mem[("l", fr.uid, t[1])]
        args = [self.operand(st, fr, o) for o in t[2]]
        cell, path, _ = self.loc(st, fr, t[3])
        cv = self.read(st, ref.cell, ref.path)
        ref2 = ref
        while isinstance(cv, R):
            ref2 = cv
            cv = self.read(st, cv.cell, cv.path)
        if not isinstance(cv, A) or cv.ty is None:
            raise Und("closure value")
        k = self.types[cv.ty]["k"]
        if k == "closure":
            return self.call_closure(st, cv, args, (cell, path), t[4], ref2)
        if k == "fndef":
            return self.invoke(st, self.types[cv.ty]["inst"], args, (cell, path), t[4], fr.body["locals"][t[3][0]])
        raise Und("closure value")
    if t[0] == "end":
        st.fr.pop()
        return Outcome(self, st, t[1], t[2], self.where(st))
    return _step0(self, st, fr)


Engine.step = _step


class Outcome:
    def __init__(self, en, st, kind, val, where=None):
        self.en, self.st, self.kind, self.val, self.where = en, st, kind, val, where

    def __repr__(self):
        return "<%s %s>" % (self.kind, fmt(self.val))

    def pc(self):
        out = []
        st = self.st
        for a, d in st.dom.items():
            if d[2] is not None and bin(d[2]).count("1") <= 4:
                out.append("%s in {%s}" % (fmt_atom(a), ",".join(str(a.lo + i) for i in range(d[2].bit_length()) if d[2] >> i & 1)))
            else:
                out.append("%d<=%s<=%d" % (d[0], fmt_atom(a), d[1]))
        for x in st.lin:
            out.append("%s>=0" % fmt(x))
        for x in st.ne:
            out.append("%s!=0" % fmt(x))
        for k, v in st.fc.items():
            out.append("%s=%s" % (fmt(k), v))
        for x in st.fa:
            out.append(fmt(x))
        return " & ".join(out)


# ---------------------------------------------------------------- helpers


def _has(key, tag):
    return tag in flat(key)


def flat(x, out=None):
    if out is None:
        out = set()
    if isinstance(x, tuple):
        try:
            out.add(x)
        except TypeError:
            pass
        for y in x:
            flat(y, out)
    elif isinstance(x, L):
        for a, _ in x.t:
            flat(a.key, out)
    elif isinstance(x, Atom):
        flat(x.key, out)
    elif isinstance(x, (F, Bx)):
        flat(x.k, out)
    elif isinstance(x, str):
        out.add(x)
    elif isinstance(x, A):
        flat(x.f, out)
    elif isinstance(x, S):
        flat(x.segs, out)
    elif isinstance(x, O):
        flat(x.key, out)
    elif isinstance(x, N):
        flat(x.f, out)
    elif isinstance(x, T):
        flat(x.p, out)
    return out


def flat_val(x):
    return flat(x)


FLOAT_GRAMMAR = re.compile(r"[+-]?(inf(inity)?|nan|([0-9]+\.?[0-9]*|\.[0-9]+)(e[+-]?[0-9]+)?)\Z", re.I | re.A)


def parse_float(s):
    """The value Rust's float parser gives to a text; None if it rejects it."""
    if not FLOAT_GRAMMAR.match(s):
        return None
    return float(s)


def tnorm(parts):
    out = []
    for p in parts:
        if isinstance(p, tuple) and p[0] == "ch" and isinstance(p[1], int):
            p = chr(p[1])
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return T(tuple(out))


def simptext(st, t):
    """A text with what the path knows about its characters."""
    return tnorm(tuple(("ch", st.simp(p[1])) if isinstance(p, tuple) and p[0] == "ch" else p for p in t.p))


def parsed_text(st, t):
    """The name under which the path knows the outcome of parsing a text."""
    t = simptext(st, t)
    for a in st.dom:
        if a.key[0] == "in" and a.key[1][0] == "parses" and (a.key[1][1] == t or simptext(st, a.key[1][1]) == t):
            return a.key[1][1]
    return t


def float_op(op, a):
    import math

    try:
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            if a[1] == 0:
                if a[0] == 0 or a[0] != a[0]:
                    return float("nan")
                return math.copysign(float("inf"), a[0]) * math.copysign(1, a[1])
            return a[0] / a[1]
        if op == "rem":
            return math.fmod(a[0], a[1])
        if op == "neg":
            return -a[0]
        if op == "abs":
            return abs(a[0])
        if op == "sqrt":
            return math.sqrt(a[0]) if a[0] >= 0 else float("nan")
        if op == "f2f":
            return a[0]
        if op in ("floor", "ceil", "trunc", "round", "fract"):
            if a[0] != a[0] or abs(a[0]) == float("inf"):
                return a[0] if op != "fract" else float("nan")
            if op == "floor":
                return float(math.floor(a[0]))
            if op == "ceil":
                return float(math.ceil(a[0]))
            if op == "trunc":
                return float(math.trunc(a[0]))
            if op == "fract":
                return a[0] - math.trunc(a[0])
            return math.copysign(math.floor(abs(a[0]) + 0.5), a[0])
        if op == "recip":
            return float_op("div", [1.0, a[0]])
        if op == "signum":
            return a[0] if a[0] != a[0] else math.copysign(1.0, a[0])
        if op == "copysign":
            return math.copysign(a[0], a[1])
        if op in ("max", "min"):
            if a[0] != a[0] or a[1] != a[1]:
                return a[1] if a[0] != a[0] else a[0]
            return max(a) if op == "max" else min(a)
        if op == "clamp":
            return min(max(a[0], a[1]), a[2]) if a[0] == a[0] else a[0]
        if op == "mul_add":
            return a[0] * a[1] + a[2]
        if op in ("powi", "powf"):
            return math.pow(a[0], a[1])
    except (OverflowError, ValueError):
        return float("nan")
    raise Und("float operation " + op)


def depth(x):
    """Nesting depth of bound variables used inside a sequence body."""
    d = 0

    def go(x):
        nonlocal d
        if isinstance(x, S):
            for s in x.segs:
                if s[0] == "rep":
                    d = max(d, 1 + depth(s[2]))
                for y in s[1:]:
                    go(y)
        elif isinstance(x, A):
            for y in x.f:
                go(y)
        elif isinstance(x, N):
            for y in x.f:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, L):
            for a, _ in x.t:
                goa(a)
        elif isinstance(x, (F, Bx)):
            go(x.k)
        elif isinstance(x, O):
            go(x.key)

    def goa(a):
        nonlocal d
        if a.key[0] == "sum":
            d = max(d, 1)
        for y in a.key[1:]:
            if isinstance(y, Atom):
                goa(y)
            else:
                go(y)

    go(x)
    return min(d, 2)


def canon_segs(en, segs):
    out = []
    for s in segs:
        if s[0] == "rep":
            if s[1] == 0:
                continue
            b = s[2]
            # a run of consecutive bytes
            if isinstance(b, L) and b.c == 0 and len(b.t) == 1 and b.t[0][1] == 1 and b.t[0][0].key[0] == "byte":
                a = b.t[0][0]
                pos = a.key[2]
                d = BOUND[0]
                if isinstance(pos, L) and dict(pos.t).get(d) == 1 and d not in atoms_of(a.key[1]):
                    rest = sub(pos, la(d))
                    if d not in atoms_of(rest):
                        s = ("b", a.key[1], rest, s[1])
        # an explicit element that continues the run backwards belongs to it
        while out and out[-1][0] == "e" and s[0] in ("rep", "b") and not isinstance(s[1 if s[0] == "rep" else 3], int):
            if s[0] == "b":
                if out[-1][1] != la(en.byte(s[1], add(s[2], -1))):
                    break
                s = ("b", s[1], add(s[2], -1), add(s[3], 1))
            else:
                d = BOUND[depth(s[2])]
                if d not in atoms_of(s[2]) or en.norm(subst(s[2], {d: -1}, en.rebuild)) != out[-1][1]:
                    break
                s = ("rep", add(s[1], 1), en.norm(subst(s[2], {d: add(la(d), -1)}, en.rebuild)))
            out.pop()
        if s[0] in ("b",) and s[3] == 0:
            continue
        if s[0] == "op" and s[2] == 0:
            continue
        if out and s[0] == "b" and out[-1][0] == "b" and out[-1][1] == s[1] and add(out[-1][2], out[-1][3]) == s[2]:
            out[-1] = ("b", s[1], out[-1][2], add(out[-1][3], s[3]))
            continue
        out.append(s)
    return tuple(out)


def seq_suffix(a, b):
    n = len(a.segs)
    if b.segs[:n] == a.segs:
        return b.segs[n:]
    # the last byte run may have been extended
    return None


def run_extended(a, b):
    """Does b begin with a, the last run of bytes being longer?"""
    n = len(a)
    return 0 < n <= len(b) and b[: n - 1] == a[: n - 1] and a[-1][0] == b[n - 1][0] == "b" and a[-1][1:3] == b[n - 1][1:3]


def text_extended(a, b):
    n = len(a)
    if b[:n] == a:
        return True
    return 0 < n <= len(b) and b[: n - 1] == a[: n - 1] and isinstance(a[-1], str) and isinstance(b[n - 1], str) and b[n - 1].startswith(a[-1])


def unwrap_ptr(v):
    while isinstance(v, A) and v.f:
        v = v.f[0]
    return v


def wrap_ptr(en, ty, r):
    t = en.types[ty]
    if t["k"] in ("ptr", "ref"):
        return r
    if t["k"] == "adt" and t["variants"]:
        fs = t["variants"][0]["fields"]
        vals = []
        done = False
        for n, ft in fs:
            if not done:
                vals.append(wrap_ptr(en, ft, r))
                done = True
            else:
                vals.append(A(ft, 0, ()))
        return A(ty, 0, tuple(vals))
    return r


def vdiff(a, b, p):
    if a is b or a == b:
        return []
    if isinstance(a, A) and isinstance(b, A) and a.v == b.v and len(a.f) == len(b.f) and a.ty == b.ty:
        out = []
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            out.extend(vdiff(x, y, p + (("f", i, a.v),)))
        return out
    if isinstance(a, N) and isinstance(b, N) and a.kind == b.kind and len(a.f) == len(b.f) and a.kind not in ("map",):
        out = []
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            out.extend(vdiff(x, y, p + (("n", i),)))
        return out
    return [p]


def vget(en, st, c, p):
    v = st.mem[c]
    for x in p:
        if x[0] == "f":
            if isinstance(v, O):
                v = en.expand(st, v, x[2])
            if not isinstance(v, A) or x[1] >= len(v.f):
                raise Und("shape of loop-carried value")
            v = v.f[x[1]]
        elif x[0] == "n":
            if not isinstance(v, N):
                raise Und("shape of loop-carried value")
            v = v.f[x[1]]
    return v


def vset(en, v, p, x):
    if not p:
        return x
    q = p[0]
    if q[0] == "f":
        f = list(v.f)
        f[q[1]] = vset(en, f[q[1]], p[1:], x)
        return A(v.ty, v.v, tuple(f))
    f = list(v.f)
    f[q[1]] = vset(en, f[q[1]], p[1:], x)
    return N(v.kind, *f)


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "call":
        return [t[5]] if t[5] >= 0 else []
    if k == "assert":
        return [t[4]]
    if k == "drop":
        return [t[2]]
    return []


def find_loops(body):
    """Natural loops: head -> set of blocks."""
    n = len(body["blocks"])
    su = [succs(b["t"]) for b in body["blocks"]]
    color = [0] * n
    back = []
    stack = [(0, iter(su[0]))] if n else []
    if n:
        color[0] = 1
    while stack:
        u, it = stack[-1]
        for v in it:
            if color[v] == 0:
                color[v] = 1
                stack.append((v, iter(su[v])))
                break
            if color[v] == 1:
                back.append((u, v))
        else:
            color[u] = 2
            stack.pop()
    pred = [[] for _ in range(n)]
    for u in range(n):
        for v in su[u]:
            pred[v].append(u)
    loops = {}
    for u, h in back:
        s = loops.setdefault(h, {h})
        w = [u]
        while w:
            x = w.pop()
            if x in s:
                continue
            s.add(x)
            w.extend(pred[x])
    return loops


def _atoms_get(k):
    import terms

    return terms._atoms.get(k)


def load(path):
    return Engine(json.load(open(path)))
