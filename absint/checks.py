"""The properties: what is analysed and against which specification."""
from lib import *
import models as M

CHECKS = {}
ASSUMPTIONS = [
    "the standard library and the typeface crate's stream primitives behave as their models in absint/models.py say",
    "a stream is an arbitrary byte sequence whose reads may fail at any point",
    "arithmetic overflow is reported as a panic (as in a build with overflow checks)",
]


def prop(pid):
    def deco(fn):
        CHECKS[pid] = fn
        return fn

    return deco


def TAPE(en, st, sig):
    return [tape(en, st)]


def OPAQUE(en, st, sig):
    """Unknown arguments named a0, a1, ..."""
    out = []
    for i, ty in enumerate(sig):
        v = en.opaque(st, ty, ("a%d" % i,))
        if isinstance(v, O) and en.types[v.ty]["k"] in ("ref", "ptr"):
            v = en.oref(st, v)
        out.append(v)
    return out


def ok(*x):
    return ("Ok",) + x


# ---------------------------------------------------------------- P05 header


def spec_header(c, o):
    if c.failed():
        return ErrT()
    return ok(Rec("Header", major=c.byte(0), minor=c.byte(1), header_size=c.byte(2), offset_size=c.byte(3)), 4)


@prop("P05")
def p05(cx):
    en = cx.engine()
    cx.check(en, cx.outcomes(en, "header", TAPE), spec_header, "Header::read", observe=with_pos())


# ---------------------------------------------------------------- P06 offsets


@prop("P06")
def p06(cx):
    def args(en, st, sig):
        return [tape(en, st), la(atom(("in", ("size",)), 0, 255))]

    size = la(atom(("in", ("size",)), 0, 255))

    def spec(c, o):
        n = c.pick(size, (1, 2, 3, 4))
        if n is None:
            return ErrT()
        if c.failed():
            return ErrT()
        return ok(Rec("Offset", **{"0": c.be(0, n)}), n)

    en = cx.engine()
    cx.check(en, cx.outcomes(en, "offset", args), spec, "Offset::read", observe=with_pos())


# ---------------------------------------------------------------- P08 P09 numbers


class Short(Exception):
    """The data end before the item does."""


def need(c, pos, n, end):
    if end is not None and pos + n > end:
        raise Short()


def number_at(c, pos, end=None):
    """The number at a position: (value, position behind it), or None if it is malformed."""
    need(c, pos, 1, end)
    b = c.byte(pos)
    if c.within(b, 32, 246):
        return ("Integer", add(b, -139)), add(pos, 1)
    if c.within(b, 247, 250):
        need(c, pos, 2, end)
        return ("Integer", add(add(mulc(add(b, -247), 256), c.byte(add(pos, 1))), 108)), add(pos, 2)
    if c.within(b, 251, 254):
        need(c, pos, 2, end)
        return ("Integer", add(sub(mulc(add(b, -251), -256), c.byte(add(pos, 1))), -108)), add(pos, 2)
    if c.eq(b, 28):
        need(c, pos, 3, end)
        return ("Integer", c.be(add(pos, 1), 2, True)), add(pos, 3)
    if c.eq(b, 29):
        need(c, pos, 5, end)
        return ("Integer", c.be(add(pos, 1), 4, True)), add(pos, 5)
    if c.eq(b, 30):
        return real_at(c, add(pos, 1), end)
    return None


def real_at(c, pos, end=None):
    text = ()
    i = 0
    while True:
        if i % 2 == 0:
            need(c, add(pos, i // 2), 1, end)
        b = c.byte(add(pos, i // 2))
        n = c.st.simp(c.en.divc(c.st, b, 16) if i % 2 == 0 else c.en.remc(c.st, b, 16))
        i += 1
        if c.within(n, 0, 9):
            x = c.st.simp(n)
            text += (chr(48 + x),) if isinstance(x, int) else (("ch", add(x, 48)),)
            continue
        v = c.pick(n, (10, 11, 12, 14, 15))
        if v is None:
            return None
        if v == 15:
            break
        text += (NIBBLES[v],)
    t = E.parsed_text(c.st, E.tnorm(text))
    if all(isinstance(p, str) for p in t.p):
        if E.parse_float("".join(t.p)) is None:
            return None
    elif c.eq(la(atom(("in", ("parses", t)), 0, 1)), 0):
        return None
    return ("Real", F(("in", 32, ("parse", t)))), add(pos, (i + 1) // 2)


def spec_number(c, o):
    """Integers and the leading byte."""
    if c.failed() and o.st.ev and not c.reads():
        return ErrT()
    b = c.byte(0)
    if c.eq(b, 30):
        return NotImplemented
    if c.failed():
        return ErrT()
    x = number_at(c, 0)
    return ErrT() if x is None else ok(*x)


@prop("P08")
def p08(cx):
    en = cx.engine()
    cx.check(en, cx.outcomes(en, "number", TAPE), spec_number, "Number::read", observe=with_pos())


NIBBLES = {10: ".", 11: "e", 12: "e-", 14: "-"}


def spec_real(c, o):
    if c.failed():
        return ErrT()
    x = real_at(c, 1)
    return ErrT() if x is None else ok(*x)


@prop("P09")
def p09(cx):
    # everything up to a terminator in the k-th byte
    def within(k):
        def args(en, st, sig):
            st.setrange(en.byte("s", 0), 30, 30)
            for i in range(1, k + 1):
                a = en.byte("s", i)
                st.setmask(a, mask_of(a, (b for b in range(256) if (15 in (b >> 4, b & 15)) == (i == k))))
            return [tape(en, st)]

        return args

    for k in range(1, 3 if cx.tier == "quick" else 4):
        en = cx.engine("unroll", 2 * k + 2)
        cx.check(en, cx.outcomes(en, "number", within(k)), spec_real, "Number::read (real, up to %d half bytes)" % (2 * k), observe=with_pos())

    # long mantissas: digits everywhere but in one place
    def shaped(k, at):
        def args(en, st, sig):
            st.setrange(en.byte("s", 0), 30, 30)
            for i in range(1, k):
                if i != at:
                    a = en.byte("s", i)
                    st.setmask(a, mask_of(a, (16 * h + l for h in range(10) for l in range(10))))
            a = en.byte("s", k)
            st.setmask(a, mask_of(a, (16 * h + l for h in list(range(10)) + [15] for l in range(16) if h == 15 or l == 15)))
            return [tape(en, st)]

        return args

    for k in (3, 9, 20, 40) if cx.tier == "quick" else (3, 5, 9, 12, 16, 17, 20, 33, 40, 65, 130):
        for at in sorted(set((1, 2, k // 2, k - 1))):
            en = cx.engine("unroll", 2 * k + 2)
            en.no_io_errors = True
            cx.check(en, cx.outcomes(en, "number", shaped(k, at)), spec_real, "Number::read (real of %d bytes)" % k, observe=with_pos())


def mask_of(a, values):
    m = 0
    for v in values:
        m |= 1 << (v - a.lo)
    return m


# ---------------------------------------------------------------- P07 INDEX


def positions(st):
    """Loop positions the path talks about."""
    out = {}
    SP.base_atoms((tuple(st.dom), st.lin, st.ne), out)
    return [la(a) for a in out if isinstance(a, Atom) and a.key[0] in ("k", "pos")]


def exists(c, cond, extra=()):
    """Is the condition established for some position the path knows?"""
    for k in list(extra) + positions(c.st):
        if c.en.decide(c.st, cond(k)):
            return True
    return False


class Index:
    """The INDEX structure at a position of a stream."""

    def __init__(self, c, pos=0, src=None):
        self.c, self.pos, self.src = c, pos, src
        self.count = c.be(pos, 2, src=src)

    def read_size(self):
        return self.c.byte(add(self.pos, 2), self.src)

    def with_size(self, n):
        self.size = n
        self.base = add(add(self.pos, 3), mulc(add(self.count, 1), n))
        return self

    def off(self, j):
        return self.c.be(add(add(self.pos, 3), mulc(j, self.size)), self.size, src=self.src)

    def start(self, j):
        return add(add(self.base, self.off(j)), -1)

    def length(self, j):
        return sub(self.off(add(j, 1)), self.off(j))

    def end(self):
        return self.start(self.count)

    def value(self):
        src = self.src or self.c.src
        return Rec(
            "Index",
            count=self.count,
            offset_size=self.size,
            offsets=Seq(Rep(add(self.count, 1), lambda j: Rec("Offset", **{"0": self.off(j)}))),
            data=Seq(Rep(self.count, lambda j: Seq(Bytes(src, self.start(j), self.length(j))))),
        )


EMPTY_INDEX = Rec("Index", count=0, offset_size=0, offsets=Seq(), data=Seq())


def is_ok(o):
    t = o.en.types[o.val.ty] if isinstance(o.val, A) else None
    return bool(t) and o.kind == "return" and t["k"] == "adt" and t["variants"][o.val.v]["name"] == "Ok"


def index_spec(wrap=lambda v: v, general=True, pre=None):
    def spec(c, o):
        if pre is not None:
            x = pre(c)
            if x is not None:
                return x
        if c.failed():
            return ErrT()
        x = Index(c)
        if c.eq(x.count, 0):
            return ok(wrap(EMPTY_INDEX), 2)
        n = c.pick(x.read_size(), (1, 2, 3, 4))
        if n is None:
            return ErrT()
        x.with_size(n)
        if not c.eq(x.off(0), 1):
            return ErrT()
        if isinstance(c.st.simp(x.count), int):
            for j in range(c.st.simp(x.count)):
                if not c.ge(x.off(j + 1), x.off(j)):
                    return ErrT()
        elif not is_ok(o) and exists(c, lambda k: ("ge", sub(sub(x.off(k), x.off(add(k, 1))), 1))):
            return ErrT()
        return ok(wrap(x.value()), x.end())

    return spec


def count_at(st, en, pos, n, src="s"):
    for i, v in enumerate((n >> 8, n & 255)):
        st.setrange(en.byte(src, pos + i), v, v)


def index_check(cx, root, label, wrap, args=TAPE, counts=(0, 1, 2, 3), pre=None):
    en = cx.engine()
    cx.check(en, cx.outcomes(en, root, args), index_spec(wrap, pre=pre), label + " (any count)", observe=with_pos())
    for n in counts:

        def small(en, st, sig):
            a = args(en, st, sig)
            count_at(st, en, 0, n)
            return a

        en = cx.engine("mixed", 70)
        cx.check(en, cx.outcomes(en, root, small), index_spec(wrap, pre=pre), label + " (count %d)" % n, observe=with_pos())


def newtype(name):
    return lambda v: Rec(name, **{"0": v})


@prop("P07")
def p07(cx):
    p06(cx)
    index_check(cx, "index", "Index::read", lambda v: v, counts=(0, 1, 2, 3) if cx.tier == "quick" else (0, 1, 2, 3, 4, 5))
    for root, name in (("names", "Names"), ("strings", "Strings"), ("subroutines", "Subroutines"), ("dictionaries", "Dictionaries")):
        index_check(cx, root, name + "::read", newtype(name), counts=(0, 1, 2))

    fmt_ = la(atom(("in", ("format",)), -(2**31), 2**31 - 1))

    def args(en, st, sig):
        return [tape(en, st), fmt_]

    def pre(c):
        if not c.eq(fmt_, 2):
            return ErrT()

    index_check(cx, "character_strings", "CharacterStrings::read", newtype("CharacterStrings"), args=args, counts=(0, 1, 2), pre=pre)

    # the wrappers expose the chunks
    for root in ("names", "strings", "subroutines", "dictionaries", "character_strings"):
        en = cx.engine()
        outs = cx.outcomes(en, "deref_" + root, OPAQUE)
        for o in outs:
            p = SP.plain(en, o.st, o.val) if o.kind == "return" else None
            if isinstance(p, SP.PS) and len(p.segs) == 1 and p.segs[0][0] == "op" and p.segs[0][1][-1] == "data":
                cx.table("deref of " + root, True)
            else:
                cx.res.undecided.append(("deref of " + root, SP.show(p)))
    en = cx.engine()
    cx.check(en, cx.outcomes(en, "default_subroutines", lambda en, st, sig: []), lambda c, o: Rec("Subroutines", **{"0": EMPTY_INDEX}), "Subroutines::default")


# ---------------------------------------------------------------- P10 P11 P13 operators

OPERATORS = {
    0x00: "Version", 0x01: "Notice", 0x02: "FullName", 0x03: "FamilyName", 0x04: "Weight", 0x05: "FontBBox",
    0x06: "BlueValues", 0x07: "OtherBlues", 0x08: "FamilyBlues", 0x09: "FamilyOtherBlues", 0x0A: "StdHW", 0x0B: "StdVW",
    0x0D: "UniqueID", 0x0E: "XUID", 0x0F: "CharSet", 0x10: "Encoding", 0x11: "CharStrings", 0x12: "Private",
    0x13: "Subrs", 0x14: "DefaultWidthX", 0x15: "NominalWidthX",
    0x0C00: "Copyright", 0x0C01: "IsFixedPitch", 0x0C02: "ItalicAngle", 0x0C03: "UnderlinePosition",
    0x0C04: "UnderlineThickness", 0x0C05: "PaintType", 0x0C06: "CharStringType", 0x0C07: "FontMatrix",
    0x0C08: "StrokeWidth", 0x0C09: "BlueScale", 0x0C0A: "BlueShift", 0x0C0B: "BlueFuzz", 0x0C0C: "StemSnapH",
    0x0C0D: "StemSnapV", 0x0C0E: "ForceBold", 0x0C11: "LanguageGroup", 0x0C12: "ExpansionFactor",
    0x0C13: "InitialRandomSeed", 0x0C14: "SyntheticBase", 0x0C15: "PostScript", 0x0C16: "BaseFontName",
    0x0C17: "BaseFontBlend", 0x0C1E: "ROS", 0x0C1F: "CIDFontVersion", 0x0C20: "CIDFontRevision", 0x0C21: "CIDFontType",
    0x0C22: "CIDCount", 0x0C23: "UIDBase", 0x0C24: "FDArray", 0x0C25: "FDSelect", 0x0C26: "FontName",
}

DEFAULTS = {
    "FontBBox": [0, 0, 0, 0], "CharSet": [0], "Encoding": [0], "DefaultWidthX": [0], "NominalWidthX": [0],
    "IsFixedPitch": [0], "ItalicAngle": [0], "UnderlinePosition": [-100], "UnderlineThickness": [50], "PaintType": [0],
    "CharStringType": [2], "FontMatrix": [0.001, 0.0, 0.0, 0.001, 0.0, 0.0], "StrokeWidth": [0], "BlueScale": [0.039625],
    "BlueShift": [7], "BlueFuzz": [1], "ForceBold": [0], "LanguageGroup": [0], "ExpansionFactor": [0.06],
    "InitialRandomSeed": [0], "CIDFontVersion": [0], "CIDFontRevision": [0], "CIDFontType": [0], "CIDCount": [8720],
}


def number(x):
    return ("Integer", x) if isinstance(x, int) else ("Real", f_const(32, x))


def default_of(name):
    d = DEFAULTS.get(name)
    return ("None",) if d is None else ("Some", Seq(*[number(x) for x in d]))


def code_spec(table, key):
    def spec(c, o):
        v = c.pick(key, sorted(table))
        return ErrT() if v is None else ok((table[v],))

    return spec


def arg(i, lo, hi):
    return la(atom(("in", ("a%d" % i,)), lo, hi))


@prop("P10")
def p10(cx):
    en = cx.engine()
    cx.check(en, cx.outcomes(en, "operator_from", OPAQUE), code_spec(OPERATORS, arg(0, 0, 65535)), "Operator::from")


def enum_cases(cx, en, st, ty):
    """(name, value) for each variant without fields."""
    return [(w["name"], A(ty, i, ())) for i, w in enumerate(en.types[ty]["variants"])]


def operator_type(en, root, i):
    ty = en.insts[en.root_ids[root]]["body"]["locals"][1 + i]
    t = en.types[ty]
    return t["ty"] if t["k"] == "ref" else ty


@prop("P11")
def p11(cx):
    en = cx.engine()
    outs = cx.outcomes(en, "operator_default", OPAQUE)
    ty = operator_type(en, "operator_default", 0)
    names = [w["name"] for w in en.types[ty]["variants"]]
    cx.table("operators", sorted(names) == sorted(OPERATORS.values()), "the operators are %s" % names)

    def spec(c, o):
        d = la(c.en.odiscr(c.st, O(ty, ("a0", "*"))))
        i = c.pick(d, range(len(names)))
        return default_of(names[i])

    cx.check(en, outs, spec, "Operator::default")


def operations_value(en, st, ty, entries):
    """An Operations value holding exactly the given operators."""
    t = en.types[ty]
    mty = t["variants"][0]["fields"][0][1]
    m = en.types[mty]
    kt, vt = m["args"][0], m["args"][1]
    ents = tuple((A(kt, en.variant_index(kt, n), ()), f(vt)) for n, f in entries)
    return A(ty, 0, (N("map", ents, None, kt, vt),))


def operands(en, st, vt, key, n=None):
    """Operands with unknown values; n: how many (None: any number)."""
    s = en.opaque(st, vt, key)
    if n is None:
        return s
    ety = en.types[vt]["args"][0]
    return S(tuple(("e", en.opaque(st, ety, key + (("idx", i),))) for i in range(n)))


@prop("P13")
def p13(cx):
    some = ("Private", "ROS", "FontMatrix", "CharSet", "BlueValues")
    for root in ("operations_get", "operations_get_single", "operations_get_double"):
        en = cx.engine()
        if not cx.has(root):
            continue
        kty = operator_type(en, root, 1)
        for name, key in enum_cases(cx, en, None, kty):
            for n in (None,) if name not in some else (None, 0, 1, 2, 3):
                for present in (True, False):
                    if not present and n is not None:
                        continue
                    en = cx.engine()

                    def args(en, st, sig):
                        oty = en.types[sig[0]]["ty"]
                        other = "Weight" if name != "Weight" else "Notice"
                        ents = [(other, lambda vt: operands(en, st, vt, ("other",), 2))]
                        if present:
                            ents.append((name, lambda vt: operands(en, st, vt, ("stored",), n)))
                        return [en.alloc(st, operations_value(en, st, oty, ents), oty), key]

                    def spec(c, o):
                        ety = None
                        ol = operator_type(c.en, root, 0)
                        vt = c.en.types[c.en.types[ol]["variants"][0]["fields"][0][1]]["args"][1]
                        ety = c.en.types[vt]["args"][0]
                        if present:
                            count = n if n is not None else la(atom(("len", ("stored",)), 0, 2**40))

                            def item(i):
                                return SP.plain(c.en, c.st, c.en.opaque(c.st, ety, ("stored", ("idx", i))))

                            if root == "operations_get":
                                if n is None:
                                    return ("Some", ANY)
                                return ("Some", Seq(*[item(i) for i in range(n)]))
                            if root == "operations_get_single":
                                return ("Some", item(0)) if c.ge(count, 1) else ("None",)
                            return ("Some", (item(0), item(1))) if c.ge(count, 2) else ("None",)
                        d = default_of(name)
                        if root == "operations_get" or d[0] == "None":
                            return d
                        d = d[1].segs
                        if root == "operations_get_single":
                            return ("Some", d[0])
                        return ("Some", (d[0], d[1])) if len(d) > 1 else ("None",)

                    cx.check(en, cx.outcomes(en, root, args), spec, "%s(%s%s)" % (root, name, "" if present else ", absent"))


# ---------------------------------------------------------------- P12 dictionaries


def index_value(en, ty, chunks):
    """An index wrapper holding exactly the given chunks (byte sequences)."""
    t = en.types[ty]
    f = t["variants"][0]["fields"]
    if f[0][1] is not None and len(f) == 1 and en.types[f[0][1]]["k"] == "adt":
        return A(ty, 0, (index_value(en, f[0][1], chunks),))
    vals = []
    for n, fty in f:
        if n == "count":
            vals.append(len(chunks))
        elif n == "offset_size":
            vals.append(4 if chunks else 0)
        elif n == "offsets":
            ety = en.types[fty]["args"][0]
            offs = [1]
            for x in chunks:
                offs.append(offs[-1] + en.slen(x))
            vals.append(S(tuple(("e", A(ety, 0, (x,))) for x in offs) if chunks else ()))
        elif n == "data":
            vals.append(S(tuple(("e", x) for x in chunks)))
        else:
            raise Und("field %s of an index" % n)
    return A(ty, 0, tuple(vals))


def chunk(en, pos, n, src="s"):
    return S(tuple(("e", la(en.byte(src, pos + i))) for i in range(n)))


def dict_at(c, pos, end, number=number_at):
    """The dictionary filling the given range."""
    ops, operands = {}, []
    while True:
        if pos == end:
            return ok(Rec("Operations", **{"0": MapV([((k,), Seq(*v)) for k, v in ops.items()])})) if not operands else ANY
        b = c.byte(pos)
        try:
            if c.within(b, 28, 30) or c.within(b, 32, 254):
                x = number(c, pos, end)
                if x is None:
                    return ErrT()
                operands.append(x[0])
                pos = x[1]
                continue
            code = b
            pos += 1
            if c.eq(b, 12):
                need(c, pos, 1, end)
                code = add(c.byte(pos), 0x0C00)
                pos += 1
        except Short:
            return ANY
        v = c.pick(code, sorted(OPERATORS))
        if v is None:
            return ErrT()
        ops[OPERATORS[v]] = operands
        operands = []


def dict_check(cx, label, n, shape):
    """A dictionary of n bytes; shape(en, st) narrows them."""

    def args(en, st, sig):
        shape(en, st)
        d = index_value(en, en.types[sig[0]]["ty"], [chunk(en, 0, n)])
        return [en.alloc(st, d, en.types[sig[0]]["ty"]), 0]

    en = cx.engine("mixed", n + 2)
    cx.check(en, cx.outcomes(en, "dictionaries_get", args), lambda c, o: dict_at(c, 0, n), label)


def put(en, st, pos, *values, src="s"):
    """Narrow bytes: an int, a (lo, hi) range, a set, or None for anything."""
    for i, v in enumerate(values):
        a = en.byte(src, pos + i)
        if isinstance(v, int):
            st.setrange(a, v, v)
        elif isinstance(v, tuple):
            st.setrange(a, *v)
        elif v is not None:
            st.setmask(a, mask_of(a, v))


OPERAND_SHAPES = {
    1: [((32, 246),)],
    2: [((247, 250), None), ((251, 254), None)],
    3: [(28, None, None)],
    5: [(29, None, None, None, None)],
}


@prop("P12")
def p12(cx):
    # every dictionary of few bytes
    for n in (0, 1, 2, 3):
        dict_check(cx, "dictionary of %d bytes" % n, n, lambda en, st: put(en, st, 0, *(((0, 27) if i == n - 1 else None) for i in range(n))) if n == 3 else None)
    # operands of every form before every operator
    for form in sum(OPERAND_SHAPES.values(), []):
        k = len(form)
        for second in sum(OPERAND_SHAPES.values(), []):
            m = len(second)
            dict_check(cx, "operands of %d and %d bytes" % (k, m), k + m + 1, lambda en, st: put(en, st, 0, *form, *second, (0, 31)))
        dict_check(cx, "operand of %d bytes, two-byte operator" % k, k + 2, lambda en, st: put(en, st, 0, *form, 12, None))
    # reals
    digits = [16 * i + j for i in range(10) for j in range(10)]
    last = [16 * i + 15 for i in range(10)]
    for m in (1, 2, 3):
        dict_check(cx, "real of %d bytes" % (m + 1), m + 3, lambda en, st: put(en, st, 0, 30, *([digits] * (m - 1)), last, (32, 246), (0, 27)))
    # several operations, the same operator among them
    few = [0, 15, 17, 18]
    for n in (2, 3):
        dict_check(cx, "%d operations" % n, 2 * n, lambda en, st: put(en, st, 0, *([(32, 246), few] * n)))
    dict_check(cx, "operations without operands", 6, lambda en, st: put(en, st, 0, few, (32, 246), few, few, 12, (7, 8)))
    # many operands, many operations
    for n in (4, 48, 60) if cx.tier == "quick" else (4, 10, 48, 49, 60, 120, 513):
        dict_check(cx, "%d operands" % n, n + 1, lambda en, st: put(en, st, 0, *([(32, 246)] * n), (0, 21)))
    codes = [((32, 246),) + ((12, k & 255) if k >= 256 else (k,)) for k in sorted(OPERATORS)]
    flat = sum(codes, ())
    dict_check(cx, "every operator", len(flat), lambda en, st: put(en, st, 0, *flat))
    dict_check(cx, "every operator twice", 2 * len(flat), lambda en, st: put(en, st, 0, *flat, *flat))
    # the dictionaries of an index
    sizes = (2, 0, 4, 3)
    starts = [sum(sizes[:i]) for i in range(len(sizes))]

    def several(which):
        def args(en, st, sig):
            put(en, st, 0, (32, 246), few, (32, 246), few, 12, (7, 8), (247, 250), None, few)
            ty = en.types[sig[0]]["ty"]
            d = index_value(en, ty, [chunk(en, a, n) for a, n in zip(starts, sizes)])
            return [en.alloc(st, d, ty)] + ([] if which is None else [which])

        return args

    for i in range(len(sizes)):
        en = cx.engine("mixed", 12)
        cx.check(en, cx.outcomes(en, "dictionaries_get", several(i)), lambda c, o: dict_at(c, starts[i], starts[i] + sizes[i]), "dictionary %d of several" % i)

    def all_of(c, o):
        vals, bad = [], False
        for a, n in zip(starts, sizes):
            x = dict_at(c, a, a + n)
            bad = bad or isinstance(x, ErrT)
            vals.append(x if x is ANY else x[1] if isinstance(x, tuple) else None)
        return ErrT() if bad else ok(Seq(*vals))

    en = cx.engine("mixed", 12)
    cx.check(en, cx.outcomes(en, "dictionaries_into", several(None)), all_of, "Vec<Operations>::try_from(Dictionaries)")


# ---------------------------------------------------------------- P14 P15 P16 strings

TABLES = json.load(open(os.path.join(VERIF, "absint", "tables.json")))


@prop("P15")
def p15(cx):
    en = cx.engine()
    sid = arg(1, 0, 65535)

    def spec(c, o):
        if c.ge(390, sid):
            v = c.const(sid, 400)
            return ("Some", TABLES["sid"][v])
        n = items(("a0", "*", "0"))
        if c.ge(sub(n, 1), add(sid, -391)):
            return ("Some", T((("x", ("text", S((("op", ("a0", "*", "0", "data", ("idx", add(sid, -391))), la(atom(("len", ("a0", "*", "0", "data", ("idx", add(sid, -391)))), 0, 2**40)), u8type(c.en)),)))),)))
        return ("None",)

    cx.check(en, cx.outcomes(en, "strings_get", OPAQUE), spec, "Strings::get")


def u8type(en):
    for i, t in enumerate(en.types):
        if t and t["k"] == "int" and t["bits"] == 8 and not t["signed"]:
            return i


@prop("P14")
def p14(cx):
    en = cx.engine()

    def spec(c, o):
        key = ("a0", "0", "data")
        n = items(("a0", "0"))
        return ok(Seq(Rep(n, lambda j: T((("x", ("text", S((("op", key + (("idx", j),), la(atom(("len", key + (("idx", j),)), 0, 2**40)), u8type(c.en)),)))),)))))

    cx.check(en, cx.outcomes(en, "names_into", OPAQUE), spec, "Vec<String>::try_from(Names)")


@prop("P16")
def p16(cx):
    def spec(c, o):
        en, st = c.en, c.st
        ty = en.insts[en.root_ids["string_id"]]["body"]["locals"][1]
        v = O(ty, ("a0",))
        i = c.pick(la(en.odiscr(st, v)), range(len(en.types[ty]["variants"])))
        p = SP.plain(en, st, en.expand(st, v, i))
        if p[0] != "Integer" or not c.within(p[1], 0, 65535):
            return ErrT()
        return ok(p[1])

    en = cx.engine()
    cx.check(en, cx.outcomes(en, "string_id", OPAQUE), spec, "StringID::try_from")
    for root, w in (("number_from_i32", "Integer"), ("number_from_f32", "Real")):
        en = cx.engine()
        outs = cx.outcomes(en, root, OPAQUE)
        cx.check(en, outs, lambda c, o: (w, arg(0, -(2**31), 2**31 - 1) if w == "Integer" else F(("in", 32, ("a0",)))), root)


# ---------------------------------------------------------------- P18 P20 predefined tables


def lookup(cx, root, tables, label, item):
    en = cx.engine()
    ty = operator_type(en, root, 0)
    names = [w["name"] for w in en.types[ty]["variants"]]
    gid = arg(1, 0, 65535)

    def spec(c, o):
        i = c.pick(la(c.en.odiscr(c.st, O(ty, ("a0", "*")))), range(len(names)))
        if names[i] not in tables:
            return NotImplemented
        t = tables[names[i]]
        if not c.within(gid, min(t), max(t)):
            return ("None",)
        v = c.const(gid, 70000)
        return ("Some", item(t[v])) if v in t else ("None",)

    cx.check(en, cx.outcomes(en, root, OPAQUE), spec, label)


@prop("P18")
def p18(cx):
    sid = TABLES["sid"]
    tables = {
        "ISOAdobe": dict((i, sid[i]) for i in range(1, 229)),
        "Expert": dict((i, sid[s]) for i, s in enumerate(TABLES["expert"]) if i),
        "ExpertSubset": dict((i, sid[s]) for i, s in enumerate(TABLES["subset"]) if i),
    }
    lookup(cx, "character_set_get", tables, "CharacterSet::get", lambda x: x)


@prop("P20")
def p20(cx):
    tables = {"Standard": dict(enumerate(TABLES["std"])), "Expert": dict(enumerate(TABLES["exp"]))}
    lookup(cx, "encoding_get", tables, "Encoding::get", lambda x: x)


# ---------------------------------------------------------------- P17 character sets


def sid_at(c, pos):
    return c.be(pos, 2)


def spec_charset0(c, n):
    """Format 0 at position 0, n glyphs."""
    if not c.eq(c.byte(0), 0) or c.eq(n, 0):
        return ErrT()
    if c.failed():
        return ErrT()
    return ok(Rec("CharacterSet0", format=0, glyphs=Seq(Rep(add(n, -1), lambda j: c.be(add(1, mulc(j, 2)), 2)))), add(1, mulc(add(n, -1), 2)))


def spec_ranges(fmt_, width):
    """Formats 1 and 2, glyph counts small enough for the ranges to be followed one by one."""

    def spec(c, n):
        if not c.eq(c.byte(0), fmt_):
            return ErrT()
        if c.failed():
            return ErrT()
        found, pos, out = 1, 1, []
        while True:
            if c.ge(found, n):
                break
            left = c.be(add(pos, 2), width)
            out.append(Rec("Range%d" % fmt_, first_string_id=c.be(pos, 2), left_count=left))
            found = add(found, add(left, 1))
            pos = add(pos, 2 + width)
        if not c.eq(found, n):
            return ErrT()
        return ok(Rec("CharacterSet%d" % fmt_, format=fmt_, ranges=Seq(*out)), pos)

    return spec


def count_arg(lo, hi):
    def args(en, st, sig):
        n = glyphs()
        st.setrange(n.t[0][0], lo, hi)
        return [tape(en, st), n]

    return args


def glyphs():
    return la(atom(("in", ("count",)), 0, 65535))


@prop("P17")
def p17(cx):
    top = 65535

    def any_format(c, o):
        if c.failed() and not c.reads():
            return ErrT()
        f = c.pick(c.byte(0), (0, 1, 2))
        if f is None:
            return ErrT()
        if c.failed():
            return ErrT()
        if f == 0:
            x = spec_charset0(c, glyphs())
        else:
            x = spec_ranges(f, f)(c, glyphs())
        if isinstance(x, ErrT):
            return x
        return ok(("Format%d" % f, x[1]), x[2])

    en = cx.engine()
    cx.check(en, cx.outcomes(en, "character_set0", count_arg(0, top)), lambda c, o: ErrT() if c.failed() else spec_charset0(c, glyphs()), "CharacterSet0::read", observe=with_pos())

    def failed_or(f):
        return lambda c, o: ErrT() if c.failed() else f(c, glyphs())

    small = 5 if cx.tier == "quick" else 8
    for f in (1, 2):
        en = cx.engine("mixed", small + 2)
        cx.check(en, cx.outcomes(en, "character_set%d" % f, count_arg(0, small)), failed_or(spec_ranges(f, f)), "CharacterSet%d::read (up to %d glyphs)" % (f, small), observe=with_pos())
    en = cx.engine("mixed", 6)
    cx.check(en, cx.outcomes(en, "character_set", count_arg(0, 3)), any_format, "CharacterSet::read", observe=with_pos())
    # few ranges of any length
    for f in (1, 2):
        for k in (1, 2, 3):

            def few(en, st, sig):
                a = count_arg(0, top)(en, st, sig)
                c = SP.Cx(en, st)
                reach, pos = 1, 1
                for _ in range(k):
                    reach = add(reach, add(c.be(add(pos, 2), f), 1))
                    pos += 2 + f
                en.assume(st, ("ge", sub(reach, a[1])))
                return a

            en = cx.engine("mixed", 8)
            cx.check(en, cx.outcomes(en, "character_set%d" % f, few), failed_or(spec_ranges(f, f)), "CharacterSet%d::read (up to %d ranges)" % (f, k), observe=with_pos())


# ---------------------------------------------------------------- P19 encodings


def spec_encoding0(c, o):
    if not c.eq(c.byte(0), 0):
        return ErrT()
    n = c.byte(1)
    return ok(Rec("Encoding0", format=0, code_count=n, codes=Seq(Bytes(c.src, 2, n))), add(n, 2))


def spec_encoding1(c, o):
    if not c.eq(c.byte(0), 1):
        return ErrT()
    n = c.byte(1)

    def one(j):
        p = add(2, mulc(j, 2))
        return Rec("Range1", first_code=c.byte(p), left_count=c.byte(add(p, 1)))

    return ok(Rec("Encoding1", format=1, range_count=n, ranges=Seq(Rep(n, one))), add(2, mulc(n, 2)))


def spec_supplemental(c, o):
    n = c.byte(1)

    def one(j):
        p = add(2, mulc(j, 3))
        return Rec("Supplement", code=c.byte(p), glyph=c.be(add(p, 1), 2))

    return ok(Rec("EncodingSupplemental", format=c.byte(0), supplement_count=n, supplements=Seq(Rep(n, one))), add(2, mulc(n, 3)))


def unless_failed(f):
    def spec(c, o):
        return ErrT() if c.failed() else f(c, o)

    return spec


def spec_encoding(c, o):
    f = c.byte(0)
    if c.eq(f, 0):
        n, x = "Format0", spec_encoding0(c, o)
    elif c.eq(f, 1):
        n, x = "Format1", spec_encoding1(c, o)
    elif c.ge(f, 128):
        # what follows the format byte is decided under "with a supplement"
        n, x = "FormatSupplemental", ok(Rec("EncodingSupplemental", format=f, supplement_count=ANY, supplements=ANY), ANY)
    else:
        return ErrT()
    return x if isinstance(x, ErrT) else ok((n, x[1]), x[2])


def spec_supplemented(c, o):
    """An encoding with the high bit set in its format: the codes, then the supplement."""
    f = c.byte(0)
    if not c.ge(f, 130):
        n = add(2, mulc(c.byte(1), 2 if c.eq(f, 129) else 1))
        return ok(ANY, add(n, add(1, mulc(c.byte(n), 3))))
    return ErrT()


@prop("P19")
def p19(cx):
    for root, f, label in (
        ("encoding0", spec_encoding0, "Encoding0::read"),
        ("encoding1", spec_encoding1, "Encoding1::read"),
        ("encoding_supplemental", spec_supplemental, "EncodingSupplemental::read"),
        ("encoding", spec_encoding, "Encoding::read"),
    ):
        en = cx.engine()
        args = TAPE
        if root == "encoding_supplemental":

            def args(en, st, sig):
                st.setrange(en.byte("s", 0), 128, 255)
                return [tape(en, st)]

        cx.check(en, cx.outcomes(en, root, args), unless_failed(f), label, observe=with_pos())

    def high(lo, hi):
        def args(en, st, sig):
            st.setrange(en.byte("s", 0), lo, hi)
            st.setrange(en.byte("s", 1), 1, 2)
            return [tape(en, st)]

        return args

    for lo, hi in ((128, 128), (129, 129), (130, 255)):
        en = cx.engine("unroll", 20)
        cx.check(en, cx.outcomes(en, "encoding", high(lo, hi)), unless_failed(spec_supplemented), "Encoding::read with a supplement (format %s)" % (lo if lo == hi else "%d to %d" % (lo, hi)), observe=with_pos())


# ---------------------------------------------------------------- P21 glyph-to-dictionary encodings


@prop("P21")
def p21(cx):
    def spec0(c, o):
        if not c.eq(c.byte(0), 0):
            return ErrT()
        n = la(atom(("in", ("a1", "*", "0", "count")), 0, 65535))
        return ok(Rec("Encoding0", format=0, dictionary_ids=Seq(Bytes(c.src, 1, n))), add(n, 1))

    def spec3(c, o):
        if not c.eq(c.byte(0), 3):
            return ErrT()
        n = c.be(1, 2)

        def one(j):
            p = add(3, mulc(j, 3))
            return Rec("Range3", first_glyph_id=c.be(p, 2), dictionary_id=c.byte(add(p, 2)))

        e = add(3, mulc(n, 3))
        return ok(Rec("Encoding3", format=3, range_count=n, ranges=Seq(Rep(n, one)), glyph_count=c.be(e, 2)), add(e, 2))

    def spec(c, o):
        f = c.pick(c.byte(0), (0, 3))
        if f is None:
            return ErrT()
        x = spec0(c, o) if f == 0 else spec3(c, o)
        return ok(("Format%d" % f, x[1]), x[2])

    def args(en, st, sig):
        a = OPAQUE(en, st, sig)
        a[0] = tape(en, st)
        return a

    for root, f in (("cid_encoding0", spec0), ("cid_encoding3", spec3), ("cid_encoding", spec)):
        en = cx.engine()
        cx.check(en, cx.outcomes(en, root, args), unless_failed(f), root, observe=with_pos(("h", 1)))


# ---------------------------------------------------------------- P25 private dictionaries


class Dict:
    """An unknown dictionary: what is stored under an operator, defaults included."""

    def __init__(self, c, ty, key):
        self.c, self.key = c, key
        en = c.en
        if en.types[ty]["k"] == "ref":
            ty = en.types[ty]["ty"]
        m = en.types[en.types[ty]["variants"][0]["fields"][0][1]]
        self.kt, self.vt = m["args"][:2]

    def has(self, name):
        en = self.c.en
        k = A(self.kt, en.variant_index(self.kt, name), ())
        return k, self.c.eq(la(M.base_has(en, N("map", (), self.key, self.kt, self.vt), k)), 1)

    def operands(self, name, n):
        """The first n operands, or None when there are fewer; defaults apply."""
        c, en, st = self.c, self.c.en, self.c.st
        k, there = self.has(name)
        if not there:
            d = DEFAULTS.get(name)
            return None if d is None or len(d) < n else [number(x) for x in d[:n]]
        key = self.key + ("at", k)
        count = la(atom(("len", key), 0, 2**40))
        if not c.ge(count, n):
            return None
        ety = en.types[self.vt]["args"][0]
        out = []
        for i in range(n):
            v = en.opaque(st, ety, key + (("idx", i),))
            j = c.pick(la(en.odiscr(st, v)), range(len(en.types[ety]["variants"])))
            out.append(SP.plain(en, st, en.expand(st, v, j)))
        return out

    def count(self, name):
        k, there = self.has(name)
        if not there:
            return None
        return la(atom(("len", self.key + ("at", k)), 0, 2**40))

    def single(self, name):
        x = self.operands(name, 1)
        return None if x is None else x[0]

    def unsigned(self, name):
        """A required non-negative integer, or None."""
        x = self.single(name)
        if x is None or x[0] != "Integer" or not self.c.ge(x[1], 0):
            return None
        return x[1]


COMPONENTS = [
    reader(INDEX, "Index", size_atom),
    reader(OPERATIONS, "Operations", size_atom),
    reader(CHARSET, "CharacterSet", size_atom),
    reader(ENCODING, "Encoding", size_atom),
    reader(FDSELECT, "FDSelect", size_atom),
]


def at_position(en, st, sig):
    """A stream, and the remaining arguments unknown."""
    a = OPAQUE(en, st, sig)
    a[0] = tape(en, st)
    for x in a[1:]:
        if isinstance(x, L) and x == BASE:
            st.setrange(BASE.t[0][0], 0, 2**62)
    return a


BASE = la(atom(("in", ("a1",)), 0, 2**64 - 1))


def private_of(c, d, base):
    """The private dictionary and the local subroutines a dictionary refers to: (record fields, failed?)."""
    x = d.operands("Private", 2)
    if x is None or any(y[0] != "Integer" for y in x) or not c.ge(x[0][1], 0) or not c.ge(x[1][1], 0):
        return None
    size, offset = x[0][1], x[1][1]
    data = ("seq", ("b", c.src, c.st.simp(add(base, offset)), size))
    ops = Ent("Operations", data, 0)
    e = Dict(c, c.optype, ("ent", "Operations", data, 0) + ("0",))
    s = e.single("Subrs")
    if s is None:
        return Rec("R", operations=ops, subroutines=Rec("Subroutines", **{"0": EMPTY_INDEX}))
    if s[0] != "Integer":
        return None
    at = add(offset, s[1])
    if not c.within(at, 0, 2**31 - 1):
        return None
    return Rec("R", operations=ops, subroutines=Rec("Subroutines", **{"0": Ent("Index", c.src, add(base, at))}))


def privates(cx, roots):
    def spec(c, o):
        if c.failed():
            return ErrT()
        c.optype = c.en.insts[c.en.root_ids[root]]["body"]["locals"][3]
        x = private_of(c, Dict(c, c.optype, ("a2", "*", "0")), BASE)
        return ErrT() if x is None else ok(x)

    for root in roots:
        en = cx.engine(overrides=COMPONENTS)
        cx.check(en, cx.outcomes(en, root, at_position), spec, root)


@prop("P25")
def p25(cx):
    privates(cx, ("name_record", "cid_inner"))


# ---------------------------------------------------------------- P26 character-ID-keyed records


def index_ent(pos, src="s"):
    return ("ent", "Index", src, pos)


def items(key):
    """The number of chunks of an unknown index."""
    return la(atom(("in", key + ("count",)), 0, 65535))


def item_data(c, key, j):
    """A chunk of an unknown index as the data of a dictionary."""
    k = key + ("data", ("idx", j))
    return ("seq", ("op", k, la(atom(("len", k), 0, 2**40)), u8type(c.en)))


def spec_cid(c, d, base, strings):
    """The record of a character-ID-keyed font with the given top dictionary."""
    n = d.count("ROS")
    if n is None or not c.eq(n, 3):
        return None
    ros = d.operands("ROS", 3)
    select = d.unsigned("FDSelect")
    array = d.unsigned("FDArray")
    if select is None or array is None:
        return None
    for x in ros[:2]:
        if x[0] != "Integer" or not c.within(x[1], 0, 65535):
            return None
    key = index_ent(c.st.simp(add(base, array)), c.src)
    n = items(key)
    return Rec(
        "Record",
        registry=ros[0][1],
        ordering=ros[1][1],
        supplement=ros[2],
        encoding=Ent("FDSelect", c.src, add(base, select), strings),
        operations=Seq(Rep(n, lambda j: Ent("Operations", item_data(c, key, j), 0))),
        records=Seq(Rep(n, lambda j: Ent("Inner", c.src, 0, (base, ("ent", "Operations", item_data(c, key, j), 0))))),
    )


def optype_of(c, root, i):
    return c.en.insts[c.en.root_ids[root]]["body"]["locals"][i]


@prop("P26")
def p26(cx):
    parts = COMPONENTS + [reader(INNER, "Inner", size_atom, placed=False)]

    def spec(c, o):
        if c.failed():
            return ErrT()
        x = spec_cid(c, Dict(c, optype_of(c, "cid_record", 3), ("a2", "*", "0")), BASE, ("a3", "*"))
        return ErrT() if x is None else ok(x)

    en = cx.engine(overrides=parts)
    cx.check(en, cx.outcomes(en, "cid_record", at_position), spec, "cid_record")

    def which(c, o):
        if c.failed():
            return ErrT()
        d = Dict(c, optype_of(c, "record", 3), ("a2", "*", "0"))
        if d.has("ROS")[1]:
            return ok(("CharacterIDKeyed", Ent("CID", c.src, 0, (BASE, ("a2", "*"), ("a3", "*")))))
        return ok(("CharacterNameKeyed", Ent("Named", c.src, 0, (BASE, ("a2", "*")))))

    en = cx.engine(overrides=[reader(CIDRECORD, "CID", size_atom, placed=False), reader(NAMERECORD, "Named", size_atom, placed=False)])
    cx.check(en, cx.outcomes(en, "record", at_position), which, "record")
    privates(cx, ("cid_inner",))
    p21(cx)


# ---------------------------------------------------------------- P22 P23 P24 font sets

FONTPARTS = COMPONENTS + [reader(RECORD, "Record", size_atom, placed=False)]


class Layout:
    """The parts of a font set starting at a position."""

    def __init__(self, c, base):
        self.c, self.base = c, base
        src = c.src
        pos = c.st.simp(add(base, c.byte(add(base, 2))))
        self.keys = []
        for _ in range(4):
            k = index_ent(pos, src)
            self.keys.append(k)
            pos = add(pos, size_atom(c.en, c.st, k))

    def header(self):
        c, b = self.c, self.base
        return Rec("Header", major=c.byte(b), minor=c.byte(add(b, 1)), header_size=c.byte(add(b, 2)), offset_size=c.byte(add(b, 3)))

    def wrapped(self, i, name):
        return Rec(name, **{"0": Ent("Index", *self.keys[i][2:])})

    def count(self):
        return items(self.keys[1])

    def dictionary(self, i):
        data = item_data(self.c, self.keys[1], i)
        return data, ("ent", "Operations", data, 0)


def font_ops(c):
    t = c.en.types
    r = c.en.insts[c.en.root_ids["font_set"]]["body"]["locals"][0]
    fs = ok_type(c.en, r)
    for n, ty in t[fs]["variants"][0]["fields"]:
        if n == "operations":
            return t[ty]["args"][0]


CHARSETS = {0: "ISOAdobe", 1: "Expert", 2: "ExpertSubset"}
ENCODINGS = {0: "Standard", 1: "Expert"}


def font_spec(base, count=None):
    def spec(c, o):
        if c.failed():
            return ErrT()
        x = Layout(c, base)
        src = c.src
        if count is None:
            if not is_ok(o):
                return ANY if o.kind == "return" else ErrT()
            n = x.count()

            def ops(j):
                return Ent("Operations", x.dictionary(j)[0], 0)

            def strings_at(j):
                k = x.dictionary(j)[1] + ("0",)
                # an optional element is met only where it was required to be present
                kt, vt = Dict(c, font_ops(c), k).kt, Dict(c, font_ops(c), k).vt
                ety = c.en.types[vt]["args"][0]
                v = c.en.opaque(c.st, ety, k + ("at", A(kt, c.en.variant_index(kt, "CharStrings"), ()), ("idx", 0)))
                return c.st.simp(add(base, c.en.expand(c.st, v, c.en.variant_index(ety, "Integer")).f[0]))

            return ok(
                Rec(
                    "FontSet",
                    header=x.header(),
                    names=x.wrapped(0, "Names"),
                    operations=Seq(Rep(n, ops)),
                    strings=x.wrapped(2, "Strings"),
                    subroutines=x.wrapped(3, "Subroutines"),
                    encodings=Seq(Rep(n, lambda j: ANY)),
                    character_sets=Seq(Rep(n, lambda j: ANY)),
                    character_strings=Seq(Rep(n, lambda j: Rec("CharacterStrings", **{"0": Ent("Index", src, strings_at(j))}))),
                    records=Seq(Rep(n, lambda j: Ent("Record", src, 0, (base, x.dictionary(j)[1], ("rec", "CharacterStrings", ("0", index_ent(strings_at(j), src))))))),
                )
            )
        vals = dict((k, []) for k in ("operations", "encodings", "character_sets", "character_strings", "records"))
        for i in range(count):
            data, key = x.dictionary(i)
            d = Dict(c, font_ops(c), key + ("0",))
            at = d.unsigned("CharStrings")
            form = d.unsigned("CharStringType")
            if at is None or form is None or not c.eq(form, 2):
                return ErrT()
            strings = index_ent(c.st.simp(add(base, at)), src)
            vals["operations"].append(Ent("Operations", data, 0))
            vals["character_strings"].append(Rec("CharacterStrings", **{"0": Ent(*strings[1:])}))
            v = d.unsigned("CharSet")
            if v is None:
                return ErrT()
            w = c.pick(v, CHARSETS)
            vals["character_sets"].append((CHARSETS[w],) if w is not None else Ent("CharacterSet", src, add(base, v), la(atom(("in", strings + ("count",)), 0, 65535))))
            v = d.unsigned("Encoding")
            if v is None:
                return ErrT()
            w = c.pick(v, ENCODINGS)
            vals["encodings"].append((ENCODINGS[w],) if w is not None else Ent("Encoding", src, add(base, v)))
            vals["records"].append(Ent("Record", src, 0, (base, key, ("rec", "CharacterStrings", ("0", strings)))))
        return ok(
            Rec(
                "FontSet",
                header=x.header(),
                names=x.wrapped(0, "Names"),
                strings=x.wrapped(2, "Strings"),
                subroutines=x.wrapped(3, "Subroutines"),
                **dict((k, Seq(*v)) for k, v in vals.items()),
            )
        )

    return spec


START = la(atom(("in", ("start",)), 0, 2**62))


def font_check(cx, label, base, counts, root="font_set"):
    for n in counts:

        def args(en, st, sig):
            if n is not None:
                x = Layout(SP.Cx(en, st), base)
                st.setrange(x.count().t[0][0], n, n)
            return [tape(en, st, "s", base)]

        en = cx.engine("accel" if n is None else "mixed", 0 if n is None else n + 2, overrides=FONTPARTS)
        cx.check(en, cx.outcomes(en, root, args), font_spec(base, n), "%s (%s)" % (label, "any number of fonts" if n is None else "%d fonts" % n))


@prop("P22")
def p22(cx):
    font_check(cx, "FontSet::read", 0, (None, 0, 1))
    p05(cx)
    index_check(cx, "index", "Index::read", lambda v: v, counts=(0, 1))
    p25(cx)
    p26(cx)


@prop("P23")
def p23(cx):
    font_check(cx, "FontSet::read inside a stream", START, (None, 1))

    def count(c, o):
        if c.failed():
            return ErrT()
        return ok(c.be(add(START, c.byte(add(START, 2))), 2))

    en = cx.engine()
    cx.check(en, cx.outcomes(en, "font_set_count", lambda en, st, sig: [tape(en, st, "s", START)]), count, "FontSet::count")
    p25(cx)
    p26(cx)


@prop("P24")
def p24(cx):
    font_check(cx, "FontSet::read", 0, (1, 2) if cx.tier == "quick" else (1, 2, 3))
    p25(cx)
    p26(cx)
