"""Specifications as abstract transfer functions, and their comparison with analysed summaries.

A specification is a Python function over the same abstract domain as the interpreter. When it asks
for a decision the path does not settle, the path is split, so that implementation and specification
are compared on a common partition of the inputs. Leaves are compared as normal forms. A path whose
leaves cannot be shown equal is a violation only if a concrete member of the path's input class
tells the two apart; otherwise it is undecided.
"""
import functools
import itertools
import random
import time
import engine as E
from engine import Und, Infeasible
from terms import *

MAXSPLIT = 60000


class Fork(Exception):
    def __init__(self, k):
        self.k = k


class Rec:
    """A structure: name and fields."""

    def __init__(self, name, **f):
        self.name, self.f = name, f

    def __repr__(self):
        return "%s{%s}" % (self.name, ", ".join("%s: %s" % (a, show(b)) for a, b in self.f.items()))


class Rep:
    """n repetitions of body(j) at the end or inside of a sequence."""

    def __init__(self, n, body):
        self.n, self.body = n, body


class Bytes:
    def __init__(self, src, pos, n):
        self.src, self.pos, self.n = src, pos, n


class MapV:
    """A map with known keys: entries (key, value); base: what is not known about it."""

    def __init__(self, entries, base=None):
        self.entries, self.base = list(entries), base

    def get(self, k):
        for a, b in self.entries:
            if a == k:
                return b

    def __repr__(self):
        return "{%s%s}" % (", ".join("%s: %s" % (show(a), show(b)) for a, b in self.entries), "" if self.base is None else ", ..")


class Ent:
    """The value a component's contract gives for the data at a position (and further arguments)."""

    def __init__(self, name, src, pos, *extra):
        self.name, self.src, self.pos, self.extra = name, src, pos, extra

    def __repr__(self):
        return "%s@%s:%s%s" % (self.name, show(self.src), show(self.pos), "".join(", " + show(x) for x in self.extra))


class Anything:
    def __repr__(self):
        return "_"


ANY = Anything()


class ErrT:
    """An error; kind: None any, 'io' a failure of the stream, 'own' raised by the crate."""

    def __init__(self, kind=None, eof=None):
        self.kind = kind

    def __repr__(self):
        return "Err(%s)" % (self.kind or "_")


def show(x):
    if isinstance(x, (L, F, Bx, Atom, S, T, N, O, A)):
        return str(fmt(x))
    if isinstance(x, Seq):
        return repr(x)
    if isinstance(x, tuple):
        return "(" + ", ".join(show(y) for y in x) + ")"
    if isinstance(x, Rep):
        return "rep(%s, %s)" % (show(x.n), show(x.body(la(BOUND[0]))))
    if isinstance(x, Bytes):
        return "bytes(%s@%s, %s)" % (x.src, show(x.pos), show(x.n))
    return repr(x)


class Seq:
    def __init__(self, *segs):
        self.segs = segs

    def __repr__(self):
        return "[" + ", ".join(show(s) for s in self.segs) + "]"


class Cx:
    """What a specification may ask about the current path."""

    def __init__(self, en, st, src="s"):
        self.en, self.st, self.src = en, st, src

    def byte(self, i, src=None):
        return self.st.simp(la(self.en.byte(src or self.src, self.st.simp(i))))

    def be(self, pos, n, signed=False, src=None):
        r = 0
        for i in range(n):
            r = add(mulc(r, 256), self.byte(add(pos, i), src))
        r = self.st.simp(r)
        if signed:
            if self.ask(("ge", add(r, -(1 << (8 * n - 1))))):
                r = add(r, -(1 << (8 * n)))
        return r

    def ask(self, k):
        d = self.en.decide(self.st, k)
        if d is None:
            raise Fork(k)
        return d

    def eq(self, a, b):
        return self.ask(("eq", sub(a, b)))

    def ge(self, a, b):
        return self.ask(("ge", sub(a, b)))

    def within(self, a, lo, hi):
        return self.ge(a, lo) and self.ge(hi, a)

    def pick(self, x, values):
        """Split on the value of x among the given ones; returns the value or None."""
        x = self.st.simp(x)
        if isinstance(x, int):
            return x if x in values else None
        for v in values:
            if self.eq(x, v):
                return v
        return None

    def const(self, x, limit=65536):
        """Split until x is a constant."""
        x = self.st.simp(x)
        if isinstance(x, int):
            return x
        lo, hi = self.st.rng(x)
        if hi - lo > limit:
            raise Und("specification needs a constant")
        raise Fork(("eq", add(x, -lo)))

    def reads(self):
        return [e for e in self.st.ev if e[0] == "read"]

    def failed(self):
        return [e for e in self.st.ev if e[0] == "fail"]


# ---------------------------------------------------------------- plain values


def plain(en, st, v, depth=0):
    """The analysed value in terms of variant and structure names."""
    if depth > 40:
        raise Und("deep value")
    if isinstance(v, A):
        t = en.types[v.ty]
        if t["k"] == "tuple":
            return tuple(plain(en, st, x, depth + 1) for x in v.f)
        if t["k"] == "adt" and t["ak"] == "enum":
            w = t["variants"][v.v]
            if w["name"] == "Err" and t["name"].endswith("Result"):
                return ("Err", errkind(en, st, v.f[0]))
            return (w["name"],) + tuple(plain(en, st, x, depth + 1) for x in v.f)
        if t["k"] == "adt":
            if t.get("box"):
                p = E.unwrap_ptr(v)
                return plain(en, st, p, depth + 1)
            fs = t["variants"][0]["fields"]
            r = Rec(t["name"].split("::")[-1])
            for (n, _), x in zip(fs, v.f):
                r.f[n] = plain(en, st, x, depth + 1)
            return r
        raise Und("closure value")
    if isinstance(v, R):
        return plain(en, st, en.read(st, v.cell, v.path), depth + 1)
    if isinstance(v, N) and v.kind == "map":
        return MapV([(plain(en, st, a, depth + 1), plain(en, st, b, depth + 1)) for a, b in v.f[0]], v.f[1])
    if isinstance(v, S):
        segs = []
        for s in v.segs:
            if s[0] == "e":
                segs.append(("e", plain(en, st, s[1], depth + 1)))
            else:
                segs.append(s)
        return PS(tuple(segs))
    if isinstance(v, O):
        t = en.types[v.ty]
        if t["k"] in ("ref", "ptr"):
            return plain(en, st, en.oref(st, v), depth + 1)
        if t["k"] == "adt" and t["name"] == "std::io::Error":
            return v
        if t["k"] == "adt" and t["ak"] == "enum":
            a = la(en.odiscr(st, v))
            x = st.simp(a)
            if isinstance(x, int):
                return plain(en, st, en.expand(st, v, x), depth + 1)
        return v
    if isinstance(v, Bx):
        d = en.decide(st, v.k)
        return v if d is None else int(d)
    if isinstance(v, (int, L)):
        return st.simp(v)
    return v


class PS:
    """A plain sequence."""

    def __init__(self, segs):
        self.segs = segs

    def __repr__(self):
        return "[" + ", ".join(show(s[1]) if s[0] == "e" else fmt_seg(s) for s in self.segs) + "]"


def errkind(en, st, v):
    if isinstance(v, O) and v.key and v.key[0] in ("ioerr", "enterr"):
        return "io"
    if isinstance(v, N) and v.kind == "ioerr":
        return "own"
    if isinstance(v, O):
        return "io"
    return "?"


# ---------------------------------------------------------------- comparison


def compare(cx, want, got, out, path=""):
    """Collect into out the differences: (definite, path, want, got)."""
    en, st = cx.en, cx.st
    if want is ANY:
        return
    if isinstance(want, Ent):
        k = ent_key(got)
        if k is None or k[1] != want.name or len(k) != 4 + len(want.extra):
            out.append((False, path, want, got))
            return
        for a, b in zip((want.src, want.pos) + want.extra, k[2:]):
            if isinstance(a, (int, L)) and isinstance(b, (int, L)):
                compare(cx, a, b, out, path + "/pos")
            elif isinstance(a, tuple) and isinstance(b, tuple):
                for x, y in zip(flat(a), flat(b)):
                    if isinstance(x, (int, L)) and isinstance(y, (int, L)):
                        compare(cx, x, y, out, path + "/data")
                    elif x != y:
                        out.append((False, path, want, got))
                        return
                if len(flat(a)) != len(flat(b)):
                    out.append((False, path, want, got))
                    return
            elif a != b:
                out.append((False, path, want, got))
                return
        return
    if isinstance(want, ErrT):
        if isinstance(got, tuple) and got and got[0] == "Err":
            if want.kind is not None and got[1] not in (want.kind, "?"):
                out.append((True, path, want, got))
            return
        out.append((True, path, want, got))
        return
    if isinstance(want, bool):
        want = int(want)
    if isinstance(got, Bx):
        got = en.as_int(st, got)
    if isinstance(want, Bx):
        want = en.as_int(st, want)
    if isinstance(want, (int, L)) and isinstance(got, (int, L)):
        d = same_bytes(en, st, sub(want, got))
        if d == 0:
            return
        r = en.decide(st, ("eq", d))
        if r is True:
            return
        if r is None:
            d, k = en.resolve(st, d)
            r = en.decide(st, ("eq", d))
            if r is True:
                return
            if r is None and k is not None:
                raise Fork(k)
        out.append((r is False, path, want, got))
        return
    if isinstance(want, F) and isinstance(got, F):
        if want == got:
            return
        r = None
        if want.k[0] == "c" and got.k[0] == "c":
            out.append((True, path, want, got))
            return
        x, y = en.f_as_int(want), en.f_as_int(got)
        if x is not None and y is not None and want.k[1] == got.k[1]:
            lim = 1 << 24 if want.k[1] == 32 else 1 << 53
            if max(map(abs, st.rng(x) + st.rng(y))) <= lim:
                return compare(cx, x, y, out, path)
        if not same_float(cx, want, got):
            out.append((False, path, want, got))
        return
    if isinstance(got, T):
        got = E.simptext(st, got)
    if isinstance(want, str):
        if isinstance(got, T) and all(isinstance(p, str) for p in got.p):
            if "".join(got.p) != want:
                out.append((True, path, want, got))
            return
        if isinstance(got, T) and all(isinstance(p, str) or p[0] == "ch" for p in got.p):
            cs = [c for p in got.p for c in ([ord(x) for x in p] if isinstance(p, str) else [p[1]])]
            if len(cs) != len(want):
                out.append((True, path, want, got))
                return
            for w, c in zip(want, cs):
                compare(cx, ord(w), c, out, path)
            return
        out.append((False, path, want, got))
        return
    if isinstance(want, T) and isinstance(got, T):
        want = E.simptext(st, want)
        if want.p != got.p:
            out.append((all(isinstance(p, str) for p in want.p + got.p), path, want, got))
        return
    if isinstance(want, tuple):
        if isinstance(got, O) and want and isinstance(want[0], str):
            t = en.types[got.ty]
            if t["k"] == "adt" and t["ak"] == "enum":
                try:
                    i = en.variant_index(got.ty, want[0])
                except Und:
                    out.append((True, path, want, got))
                    return
                k = ("eq", add(la(en.odiscr(st, got)), -i))
                d = en.decide(st, k)
                if d is None:
                    raise Fork(k)
                if not d:
                    out.append((True, path, want, got))
                    return
                fs = tuple(en.expand(st, got, i).f)
                return compare(cx, want, (want[0],) + tuple(plain(en, st, f) for f in fs), out, path)
        if not isinstance(got, tuple) or len(got) != len(want):
            out.append((isinstance(got, tuple), path, want, got))
            return
        if want and isinstance(want[0], str) and isinstance(got[0], str):
            if want[0] != got[0]:
                out.append((True, path, want, got))
                return
            for i, (a, b) in enumerate(zip(want[1:], got[1:])):
                compare(cx, a, b, out, path + "/" + want[0])
            return
        for i, (a, b) in enumerate(zip(want, got)):
            compare(cx, a, b, out, path + "/%d" % i)
        return
    if isinstance(want, Rec):
        if isinstance(got, Rec):
            for n, a in want.f.items():
                if n not in got.f:
                    out.append((False, path + "/" + n, a, None))
                else:
                    compare(cx, a, got.f[n], out, path + "/" + n)
            return
        if isinstance(got, O):
            try:
                return compare(cx, want, plain(en, st, en.expand(st, got)), out, path)
            except Und:
                pass
        out.append((False, path, want, got))
        return
    if isinstance(want, Seq):
        return compare_seq(cx, want, got, out, path)
    if isinstance(want, MapV):
        if not isinstance(got, MapV) or got.base != want.base:
            out.append((False, path, want, got))
            return
        ks = [k for k, _ in want.entries]
        if sorted(ks, key=repr) != sorted((k for k, _ in got.entries), key=repr):
            out.append((True, path, want, got))
            return
        for k in ks:
            compare(cx, want.get(k), got.get(k), out, path + "/" + show(k))
        return
    if isinstance(want, (O, N)):
        if want != got:
            out.append((False, path, want, got))
        return
    out.append((False, path, want, got))


def same_float(cx, a, b):
    """Whether two float terms are the same operation on the same values."""
    if a == b:
        return True
    if a.k[0] != b.k[0] or a.k[1] != b.k[1] or len(a.k) != len(b.k) or a.k[0] in ("c", "in"):
        return False
    if a.k[0] == "i2f":
        d = []
        compare(cx, a.k[2], b.k[2], d)
        return not d
    if all(same_float(cx, x, y) for x, y in zip(a.k[2:], b.k[2:])):
        return True
    return a.k[0] in ("add", "mul") and same_float(cx, a.k[2], b.k[3]) and same_float(cx, a.k[3], b.k[2])


def flat(x):
    if isinstance(x, tuple):
        return [z for y in x for z in flat(y)]
    return [x]


def ent_key(got):
    """The name of the component's value, if this is one."""
    if isinstance(got, O) and got.key and got.key[0] == "ent":
        return got.key
    if isinstance(got, MapV) and not got.entries and isinstance(got.base, tuple) and got.base and got.base[0] == "ent":
        return got.base
    if isinstance(got, Rec) and len(got.f) == 1:
        k = ent_key(list(got.f.values())[0])
        return k if k and k[1] == got.name else None
    return None


def same_bytes(en, st, d):
    """Cancel stream bytes at positions the path makes equal."""
    if not isinstance(d, L):
        return d
    bs = [(a, k) for a, k in d.t if a.key[0] == "byte"]
    for i, (a, k) in enumerate(bs):
        for b, m in bs[i + 1 :]:
            if a.key[1] == b.key[1] and (k > 0) != (m > 0) and en.decide(st, ("eq", sub(a.key[2], b.key[2]))):
                n = k if abs(k) < abs(m) else -m
                return same_bytes(en, st, add(d, L(0, tuple(sorted(((a, -n), (b, n)), key=lambda x: x[0].id)))))
    return d


def lower(en, x):
    """A specification body as an abstract value, when it is built of leaves only."""
    return x


def compare_seq(cx, want, got, out, path):
    en, st = cx.en, cx.st
    if not isinstance(got, PS):
        out.append((False, path, want, got))
        return
    ws = []
    for s in want.segs:
        if isinstance(s, Rep):
            n = st.simp(s.n)
            if isinstance(n, int) and n <= 600:
                ws.extend(("e", s.body(j)) for j in range(n))
            else:
                ws.append(("rep", n, s.body))
        elif isinstance(s, Bytes):
            n = st.simp(s.n)
            if isinstance(n, int) and n <= 600:
                ws.extend(("e", la(en.byte(s.src, add(s.pos, j)))) for j in range(n))
            else:
                ws.append(("b", s.src, s.pos, n))
        else:
            ws.append(("e", s))
    gs = []
    for s in got.segs:
        if s[0] != "e":
            n = st.simp(en.seg_len(s))
            if en.decide(st, ("eq", n)):
                continue
            if isinstance(n, int) and n <= 600:
                for j in range(n):
                    gs.append(("e", plain(en, st, en.seg_get(st, s, j))))
                continue
        gs.append(s)
    # lengths
    wn = gn = 0
    for s in ws:
        wn = add(wn, 1 if s[0] == "e" else s[1] if s[0] == "rep" else s[3])
    for s in gs:
        gn = add(gn, 1 if s[0] == "e" else en.seg_len(s))
    d = en.decide(st, ("eq", sub(wn, gn)))
    if d is not True:
        out.append((d is False, path + "/len", wn, gn))
        return
    # drop empty runs on the specification's side
    ws = [s for s in ws if s[0] == "e" or not en.decide(st, ("eq", s[1] if s[0] == "rep" else s[3]))]
    if len(ws) != len(gs) and not any(isinstance(s, tuple) and s[0] != "e" for s in ws + gs):
        out.append((True, path, want, got))
        return
    i = j = 0
    while i < len(ws) or j < len(gs):
        if i >= len(ws) or j >= len(gs):
            out.append((False, path, want, got))
            return
        w, g = ws[i], gs[j]
        if w[0] == "e" and g[0] == "e":
            compare(cx, w[1], g[1], out, path + "[%d]" % i)
            i += 1
            j += 1
            continue
        if w[0] in ("rep", "b") and g[0] == "e":
            # expose the first element of the specification's run
            if w[0] == "b":
                compare(cx, la(en.byte(w[1], w[2])), g[1], out, path + "[%d]" % j)
                ws[i] = ("b", w[1], add(w[2], 1), add(w[3], -1))
            else:
                body = w[2]
                compare(cx, body(0), g[1], out, path + "[%d]" % j)
                ws[i] = ("rep", add(w[1], -1), (lambda body: lambda q: body(add(q, 1)))(body))
            n = ws[i][1] if w[0] == "rep" else ws[i][3]
            j += 1
            if en.decide(st, ("eq", n)):
                i += 1
            continue
        if w[0] == "b" and g[0] == "b":
            if w[1] != g[1]:
                out.append((True, path, w, g))
            else:
                compare(cx, w[2], g[2], out, path + "/pos")
                compare(cx, w[3], g[3], out, path + "/n")
            i += 1
            j += 1
            continue
        if w[0] == "rep" and g[0] in ("rep", "op", "b"):
            # the body at an arbitrary position of the run
            compare(cx, w[1], en.seg_len(g), out, path + "/n")
            s2 = st.copy()
            jv = atom(("pos", path, s2.fresh()), 0, 2**40)
            try:
                en.assume(s2, ("ge", sub(add(en.seg_len(g), -1), la(jv))))
            except Infeasible:
                i += 1
                j += 1
                continue
            x = plain(en, s2, en.seg_get(s2, g, la(jv)))
            compare(Cx(en, s2, cx.src), w[2](la(jv)), x, out, path + "[*]")
            i += 1
            j += 1
            continue
        out.append((False, path, want, got))
        return


# ---------------------------------------------------------------- witnesses


@functools.lru_cache(4096)
def set_bits(m):
    return [i for i, c in enumerate(reversed(bin(m)[2:])) if c == "1"]


class Valuation(dict):
    """Values of base atoms; missing ones are drawn on demand."""

    def __init__(self, st, rnd, strategy):
        super().__init__()
        self.st, self.rnd, self.strategy = st, rnd, strategy

    def draw(self, a):
        m = self.st.maskof(a)
        lo, hi = self.st.arange(a)
        r = self.rnd
        if m is not None:
            if self.strategy == 0:
                return a.lo + (m & -m).bit_length() - 1
            bits = set_bits(m)
            return a.lo + bits[-1 if self.strategy == 1 else r.randrange(len(bits))]
        if self.strategy == 0:
            return lo
        if self.strategy == 1:
            return min(hi, lo + 1)
        c = r.randrange(6)
        if c == 0:
            return lo
        if c == 1:
            return hi
        if c == 2:
            return min(hi, lo + r.randrange(4))
        if c == 3:
            return max(lo, min(hi, r.randrange(-3, 4)))
        if c == 4:
            return max(lo, min(hi, r.randrange(-2000, 70000)))
        return r.randrange(lo, hi + 1)


FLOATS = [0.0, 1.0, -1.0, 0.5, 2.0, -2.5, 3.0, 7.25, 100.0, 1e6, -0.0, 0.001]

DERIVED = ("wrap", "div", "rem", "mul", "bit", "b2i", "idiv", "irem", "f2i", "sum", "tri", "shl")


def base_atoms(x, out=None):
    if out is None:
        out = {}

    def go(x):
        if isinstance(x, L):
            for a, _ in x.t:
                goa(a)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
        elif isinstance(x, (F, Bx)):
            if isinstance(x, F) and x.k[0] == "in" and x.k[2][0] == "parse":
                go(x.k[2][1])
            elif isinstance(x, F) and x.k[0] == "in":
                out[x] = 1
            else:
                go(x.k)
        elif isinstance(x, Atom):
            goa(x)
        elif isinstance(x, PS):
            go(x.segs)
        elif isinstance(x, Ent):
            go((x.src, x.pos) + x.extra)
        elif isinstance(x, O):
            if x.key and x.key[0] == "ent":
                go(x.key)
        elif isinstance(x, Rec):
            go(tuple(x.f.values()))
        elif isinstance(x, Seq):
            go(x.segs)
        elif isinstance(x, MapV):
            go(x.entries)
            go(x.base)
        elif isinstance(x, Rep):
            go(x.n)
        elif isinstance(x, Bytes):
            go((x.pos, x.n))
        elif isinstance(x, (S, A, N, T)):
            go(x.segs if isinstance(x, S) else x.p if isinstance(x, T) else x.f)

    def goa(a):
        if a.key[0] in DERIVED or (a.key[0] == "in" and a.key[1][0] == "parses"):
            for y in a.key[1:]:
                go(y)
        else:
            if a not in out:
                out[a] = 1
                for y in a.key[1:]:
                    if isinstance(y, L):
                        go(y)

    go(x)
    return out


def position(a):
    """Is it a position in a repetition, or something at one?"""
    return any(isinstance(k, tuple) and k and k[0] == "bound" for k in E.flat(a.k if isinstance(a, F) else a.key))


def inputs_of(leaves):
    """The inputs values are made of; those at every position of a repetition are drawn on demand."""
    bs = {}
    base_atoms(leaves, bs)
    return dict((a, 1) for a in bs if not position(a))


def exactness(st, leaves):
    """None if the path only speaks about inputs; otherwise the reason it does not."""
    if st.inexact:
        return "over-approximated path"
    bs = inputs_of(leaves)
    base_atoms(st.lin, bs)
    base_atoms(st.ne, bs)
    base_atoms(tuple(st.fc), bs)
    base_atoms(tuple(st.dom), bs)
    for a in bs:
        if isinstance(a, F):
            if "havoc" in E.flat(a.k):
                return "unknown value"
            continue
        if not a.exact or "havoc" in E.flat(a.key):
            return "unknown value %s" % fmt_atom(a)
        if a.key[0] in ("bound", "pos"):
            return "loop position"
    if any(f[0] != "forall" for f in st.fa):
        return "quantified path"
    return None


def find_witness(en, st, leaves, tell, tries=400, seed=1):
    """A valuation of the inputs on this path for which tell(val) is true."""
    if exactness(st, leaves) is not None:
        return None
    end = time.time() + 15
    bs = inputs_of(leaves)
    base_atoms(st.lin, bs)
    base_atoms(st.ne, bs)
    base_atoms(tuple(st.fc), bs)
    base_atoms(tuple(st.dom), bs)
    rnd = random.Random(seed)
    floats = [a for a in bs if isinstance(a, F)]
    ints = sorted([a for a in bs if isinstance(a, Atom)], key=lambda a: a.id)
    for n in range(tries):
        if time.time() > end:
            break
        v = Valuation(st, rnd, n if n < 2 else 2)
        s = st
        order = list(ints)
        if n >= 2:
            rnd.shuffle(order)
        ok = True
        s = st.copy() if st.lin else st
        for a in order:
            x = None
            for _ in range(8):
                v.st = s
                x = v.draw(a)
                if not st.lin:
                    break
                s2 = s.copy()
                try:
                    s2.setrange(a, x, x)
                    en.propagate(s2)
                    s = s2
                    break
                except Infeasible:
                    x = None
            if x is None:
                ok = False
                break
            v[a] = x
        if not ok:
            continue
        at = {}
        for a in v:
            if a.key[0] == "byte":
                try:
                    p = (a.key[1], en.ev(a.key[2], v))
                except (KeyError, Und):
                    ok = False
                    break
                if p in at:
                    v[a] = at[p]
                else:
                    at[p] = v[a]
        if not ok:
            continue
        v.at = at
        try:
            same = {}
            for a in ints:
                if a.key[0] != "byte" and depends(a.key):
                    # unknowns under keys that come to the same are the same unknown
                    g = ground(en, a.key, v)
                    v[a] = same.setdefault(g, v[a])
        except (KeyError, Und):
            continue
        for i, f in enumerate(floats):
            v[f] = E.fround(f.k[1], rnd.choice(FLOATS))
        try:
            if not satisfies(en, st, v):
                continue
            if tell(v):
                return v
        except (KeyError, Und, ZeroDivisionError, OverflowError):
            continue
        except E.INTERNAL:
            continue
    return None


def depends(k):
    if isinstance(k, tuple):
        return any(depends(x) for x in k)
    return isinstance(k, (L, Atom))


def ground(en, k, v):
    if isinstance(k, tuple):
        return tuple(ground(en, x, v) for x in k)
    if isinstance(k, L):
        return en.ev(k, v)
    if isinstance(k, Atom):
        return v[k] if k in v else en.ev(la(k), v)
    return k


def satisfies(en, st, v):
    for a, d in st.dom.items():
        x = en.eva(a, v)
        if not d[0] <= x <= d[1]:
            return False
        if d[2] is not None and not (d[2] >> (x - a.lo)) & 1:
            return False
    for x in st.lin:
        if en.ev(x, v) < 0:
            return False
    for x in st.ne:
        if en.ev(x, v) == 0:
            return False
    for k, b in st.fc.items():
        if en.evb(k, v) != b:
            return False
    for f in st.fa:
        if f[0] != "forall":
            return False
        n = en.ev(f[1], v)
        turns = range(n)
        if n > 400:
            # conditions linear in the turn alone hold throughout when they hold at both ends
            if not all(c[0] == "ge" and isinstance(c[1], L) and all(a is BOUND[3] for a, _ in c[1].t) for c in f[2]):
                return False
            turns = (0, n - 1)
        for j in turns:
            for c in f[2]:
                x = c[1] if isinstance(c[1], (L, int)) else la(c[1])
                x = subst(x, {BOUND[3]: j}, en.rebuild)
                y = lazy(en, x, v)
                if c[0] == "ge" and y < 0 or c[0] == "ne" and y == 0:
                    return False
                if c[0] == "mask" and not (c[2] >> (y - (c[1].t[0][0] if isinstance(c[1], L) else c[1]).lo)) & 1:
                    return False
    return True


def lazy(en, x, v):
    """Evaluate a form, choosing stream bytes not met so far."""
    for _ in range(50):
        try:
            return en.ev(x, v)
        except KeyError as e:
            a = e.args[0]
            if not isinstance(a, Atom) or a.key[0] != "byte":
                raise
            p = (a.key[1], lazy(en, a.key[2], v))
            if p not in v.at:
                v.at[p] = v.rnd.choice((0, 0, 1, 2, 255, v.rnd.randrange(256)))
            v[a] = v.at[p]
    raise Und("evaluation")


def conc_name(en, x, v):
    if isinstance(x, tuple):
        return tuple(conc_name(en, y, v) for y in x)
    return lazy(en, x, v) if isinstance(x, L) else x


def conc(en, st, x, v):
    """A plain or specification value at a valuation."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, str)) or x is None:
        return x
    if isinstance(x, L):
        return lazy(en, x, v)
    if isinstance(x, Bx):
        return int(en.evb(x.k, v))
    if isinstance(x, F):
        y = en.evf(x, v)
        return ("f", "nan") if y != y else ("f", y)
    if isinstance(x, tuple):
        return tuple(conc(en, st, y, v) for y in x)
    if isinstance(x, Rec) and not ent_key(x):
        return dict((n, conc(en, st, y, v)) for n, y in x.f.items())
    if isinstance(x, MapV) and not ent_key(x):
        return ("map",) + tuple(sorted(((conc(en, st, a, v), conc(en, st, b, v)) for a, b in x.entries), key=repr))
    if isinstance(x, T):
        if all(isinstance(p, str) for p in x.p):
            return "".join(x.p)
        return ("T",) + subst(x.p, {a: y for a, y in v.items() if isinstance(a, Atom)}, en.rebuild)
    if isinstance(x, PS):
        out = []
        for s in x.segs:
            if s[0] == "e":
                out.append(conc(en, st, s[1], v))
            else:
                n = conc(en, st, en.seg_len(s), v)
                if n > 2000:
                    raise Und("long run")
                for j in range(n):
                    out.append(conc(en, st, plain(en, st, en.seg_get(None, s, j)), v))
        return out
    if isinstance(x, Seq):
        out = []
        for s in x.segs:
            if isinstance(s, Rep):
                for j in range(conc(en, st, s.n, v)):
                    out.append(conc(en, st, s.body(j), v))
            elif isinstance(s, Bytes):
                for j in range(conc(en, st, s.n, v)):
                    out.append(conc(en, st, la(en.byte(s.src, add(s.pos, j))), v))
            else:
                out.append(conc(en, st, s, v))
        return out
    if isinstance(x, Ent):
        return ("ent",) + tuple(conc_name(en, y, v) for y in (x.name, x.src, x.pos) + x.extra)
    if isinstance(x, O) or (isinstance(x, (MapV, Rec)) and ent_key(x)):
        k = ent_key(x)
        if k:
            k = k[:1] + k[1:]
        return tuple(conc_name(en, y, v) for y in k) if k else ("O", x.key)
    if isinstance(x, ErrT):
        return x
    raise Und("value at a point")


def differ(a, b):
    """Do two concrete values differ? a is the specification's."""
    if a is ANY:
        return False
    if isinstance(a, ErrT):
        if isinstance(b, tuple) and b and b[0] == "Err":
            return a.kind is not None and b[1] not in (a.kind, "?")
        return True
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return True
        return any(n in b and differ(x, b[n]) for n, x in a.items())
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return True
        return any(differ(x, y) for x, y in zip(a, b))
    return a != b


def strip_any(x):
    return x


def conc_spec(en, st, x, v):
    if x is ANY or isinstance(x, ErrT):
        return x
    if isinstance(x, tuple):
        return tuple(conc_spec(en, st, y, v) for y in x)
    if isinstance(x, Rec):
        return dict((n, conc_spec(en, st, y, v)) for n, y in x.f.items())
    if isinstance(x, MapV):
        return ("map",) + tuple(sorted(((conc_spec(en, st, a, v), conc_spec(en, st, b, v)) for a, b in x.entries), key=repr))
    if isinstance(x, Seq):
        out = []
        for s in x.segs:
            if isinstance(s, Rep):
                for j in range(conc(en, st, s.n, v)):
                    out.append(conc_spec(en, st, s.body(j), v))
            elif isinstance(s, Bytes):
                for j in range(conc(en, st, s.n, v)):
                    out.append(conc(en, st, la(en.byte(s.src, add(s.pos, j))), v))
            else:
                out.append(conc_spec(en, st, s, v))
        return out
    return conc(en, st, x, v)


# ---------------------------------------------------------------- the check


class Result:
    def __init__(self):
        self.proved = 0
        self.undecided = []
        self.violations = []
        self.paths = 0

    def merge(self, o):
        self.proved += o.proved
        self.undecided += o.undecided
        self.violations += o.violations
        self.paths += o.paths


def check_outcomes(en, outs, spec, label, src="s", observe=None, confirm=None, limit=6, end=None):
    """Compare every analysed path with the specification."""
    res = Result()
    for o in outs:
        if end is not None and time.time() > end:
            res.undecided.append((label, "out of time"))
            break
        if limit == 1 and res.violations:
            break
        work = [(o.st, None)]
        n = 0
        while work:
            st, last = work.pop()
            n += 1
            res.paths += 1
            if n > MAXSPLIT:
                res.undecided.append((label, "too many cases"))
                break
            cx = Cx(en, st, src)
            try:
                en.tighten(st)
                want = spec(cx, o)
                if want is NotImplemented:
                    continue
                if o.kind == "undecided":
                    res.undecided.append((label, str(o.val)))
                    continue
                if o.kind == "panic":
                    if want is ANY:
                        continue
                    got = ("PANIC", str(o.val))
                    leaves, diffs = (), [(True, "", want, got)]
                else:
                    got = plain(en, st, o.val) if observe is None else observe(cx, o)
                    diffs = []
                    compare(cx, want, got, diffs)
                    leaves = tuple(x for d in diffs for x in (d[2], d[3]) if isinstance(x, (L, F, Bx, tuple, PS, Rec, MapV, Seq)))
            except Fork as f:
                if f.k == last:
                    res.undecided.append((label, "the same case again"))
                    continue
                s1, s2 = st.copy(), st.copy()
                for s, c in ((s1, f.k), (s2, en.neg(f.k))):
                    try:
                        en.assume(s, c)
                        work.append((s, f.k))
                    except Infeasible:
                        pass
                continue
            except Und as e:
                res.undecided.append((label, "specification: " + str(e)))
                continue
            except Infeasible:
                continue
            except E.INTERNAL as e:
                res.undecided.append((label, "internal: %r" % e))
                continue
            if not diffs:
                res.proved += 1
                continue
            if len(res.violations) >= limit:
                continue

            def tell(v):
                if o.kind == "panic":
                    return True
                a, b = diffs[0][2:4]
                if isinstance(a, (int, L)) and isinstance(b, (int, L)) and conc(en, st, a, v) != conc(en, st, b, v):
                    return True
                return differ(conc_spec(en, st, want, v), conc(en, st, got, v))

            w = find_witness(en, st, (leaves, ) if o.kind == "panic" else (leaves, got), tell)
            if w is None:
                why = exactness(st, (leaves,))
                res.undecided.append((label, "%s: %s expected %s (%s)" % (diffs[0][1], show(diffs[0][3])[:200], show(diffs[0][2])[:200], why or "no witness")))
            else:
                bad = Violation(label, o, w, want, got, diffs)
                if confirm is not None and not confirm(w):
                    res.undecided.append((label, "not confirmed on the narrowed input: " + bad.text[:300]))
                else:
                    res.violations.append(bad)
    return res


class Violation:
    def __init__(self, label, o, val, want, got, diffs):
        self.label, self.o, self.val = label, o, val
        self.where = o.where or []
        d = diffs[0]
        self.text = "%s: at %s the code gives %s where the property requires %s" % (
            label,
            d[1] or "the result",
            show(d[3])[:300],
            show(d[2])[:300],
        )
        self.input = dict((fmt_atom(a) if isinstance(a, Atom) else fmt(a), x) for a, x in val.items())
        self.pc = o.pc()[:2000]
        self.key = "%s|%s|%s" % (label, d[1], show(d[3])[:120])
