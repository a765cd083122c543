"""The charstring properties: a reference interpreter over the abstract domain."""
from checks import *

T2CODES = {
    1: "HStem", 3: "VStem", 4: "VMoveTo", 5: "RLineTo", 6: "HLineTo", 7: "VLineTo", 8: "RRCurveTo", 10: "CallSubr",
    11: "Return", 14: "EndChar", 18: "HStemHM", 19: "HintMask", 20: "CntrMask", 21: "RMoveTo", 22: "HMoveTo",
    23: "VStemHM", 24: "RCurveLine", 25: "RLineCurve", 26: "VVCurveTo", 27: "HHCurveTo", 29: "CallGSubr",
    30: "VHCurveTo", 31: "HVCurveTo",
    0x0C03: "And", 0x0C04: "Or", 0x0C05: "Not", 0x0C09: "Abs", 0x0C0A: "Add", 0x0C0B: "Sub", 0x0C0C: "Div",
    0x0C0E: "Neg", 0x0C0F: "Eq", 0x0C12: "Drop", 0x0C14: "Put", 0x0C15: "Get", 0x0C16: "IfElse", 0x0C17: "Random",
    0x0C18: "Mul", 0x0C1A: "Sqrt", 0x0C1B: "Dup", 0x0C1C: "Exch", 0x0C1D: "Index", 0x0C1E: "Roll", 0x0C22: "HFlex",
    0x0C23: "Flex", 0x0C24: "HFlex1", 0x0C25: "Flex1",
}
CODE_OF = dict((v, k) for k, v in T2CODES.items())
UNSUPPORTED = ("Put", "Get", "Random")


def longest(n, ok):
    """The longest suffix of n operands whose length is fine."""
    for m in range(n, -1, -1):
        if ok(m):
            return m
    return None


ARITY = {
    "RMoveTo": lambda m: m == 2,
    "HMoveTo": lambda m: m == 1,
    "VMoveTo": lambda m: m == 1,
    "RLineTo": lambda m: m >= 2 and m % 2 == 0,
    "HLineTo": lambda m: m >= 1,
    "VLineTo": lambda m: m >= 1,
    "RRCurveTo": lambda m: m >= 6 and m % 6 == 0,
    "HHCurveTo": lambda m: m >= 4 and m % 4 in (0, 1),
    "VVCurveTo": lambda m: m >= 4 and m % 4 in (0, 1),
    "HVCurveTo": lambda m: m >= 4 and m % 4 in (0, 1),
    "VHCurveTo": lambda m: m >= 4 and m % 4 in (0, 1),
    "RCurveLine": lambda m: m >= 8 and m % 6 == 2,
    "RLineCurve": lambda m: m >= 8 and m % 2 == 0,
    "Flex": lambda m: m == 13,
    "Flex1": lambda m: m == 11,
    "HFlex": lambda m: m == 7,
    "HFlex1": lambda m: m == 9,
    "HStem": lambda m: m >= 2 and m % 2 == 0,
    "VStem": lambda m: m >= 2 and m % 2 == 0,
    "HStemHM": lambda m: m >= 2 and m % 2 == 0,
    "VStemHM": lambda m: m >= 2 and m % 2 == 0,
}
TAKES_WIDTH = ("RMoveTo", "HMoveTo", "VMoveTo", "HStem", "VStem", "HStemHM", "VStemHM")
PATHS = [k for k in ARITY if not k.endswith("Stem") and not k.endswith("StemHM")]
STEMS = [k for k in ARITY if k not in PATHS]


class Bad(Exception):
    """The program is in error."""


class Loose(Exception):
    """The format does not say."""


def i2f(x):
    return f_const(32, x) if isinstance(x, int) else F(("i2f", 32, x))


def bias_of(n):
    return 107 if n < 1240 else 1131 if n < 33900 else 32768


class Code:
    """A charstring: where its bytes are."""

    def __init__(self, pos, n, src="s"):
        self.pos, self.n, self.src = pos, n, src


class T2:
    def __init__(self, c, code, glob=(), loc=(), steps=4000, cmp=None):
        self.c, self.glob, self.loc = c, glob, loc
        self.frames = [[code, 0]]
        self.stack, self.stems, self.width, self.first = [], 0, None, True
        self.wide = True  # whether the width is determined
        self.steps = steps
        self.over = False

    # ------------------------------------------------------------ bytes

    def left(self, k=1):
        """Are there k more bytes?"""
        code, i = self.frames[-1]
        return i + k <= code.n if isinstance(code.n, int) else self.c.ge(code.n, i + k)

    def byte(self):
        f = self.frames[-1]
        if not self.left():
            raise Bad()
        f[1] += 1
        return self.c.byte(f[0].pos + f[1] - 1, f[0].src)

    def number(self, b):
        """The operand starting with b, or None if b is no number."""
        c = self.c
        if c.within(b, 32, 246):
            return i2f(add(b, -139))
        if c.within(b, 247, 250):
            x = self.byte()
            return i2f(c.st.simp(add(mulc(add(b, -247), 256), add(x, 108))))
        if c.within(b, 251, 254):
            x = self.byte()
            return i2f(c.st.simp(add(mulc(add(b, -251), -256), add(mulc(x, -1), -108))))
        if c.eq(b, 28):
            return i2f(self.signed(2))
        if c.eq(b, 255):
            v = self.signed(4)
            return c.en.fop("div", 32, i2f(v), f_const(32, 65536))
        return None

    def signed(self, n):
        f = self.frames[-1]
        if not self.left(n):
            raise Bad()
        v = self.c.be(f[0].pos + f[1], n, False, f[0].src)
        f[1] += n
        return self.c.st.simp(self.c.en.wrapk(self.c.st, v, 8 * n, True))

    # ------------------------------------------------------------ operands

    def pop(self):
        if not self.stack:
            raise Bad()
        return self.stack.pop()

    def truth(self, k):
        if isinstance(k, int):
            return bool(k)
        return self.c.ask(k.k)

    def test(self, op, a, b):
        return self.truth(self.c.en.fcompare(self.c.st, op, a, b))

    def integer(self):
        """An operand that must be a 32-bit integer."""
        c = self.c
        x = self.pop()
        if x.k[0] == "c":
            v = f_val(x)
            if v != v or v in (float("inf"), float("-inf")) or v != int(v):
                raise Bad()
            v = int(v)
            if not -(2**31) <= v < 2**31:
                raise Bad()
            return v
        v = c.en.f_as_int(x)
        if v is not None:
            v = c.st.simp(v)
            lo, hi = c.st.rng(v)
            if max(-lo, hi) <= 1 << 24:
                return v
        n = c.en.f2i(c.st, 32, True, x)
        if not self.truth(c.en.fcompare(c.st, "Eq", F(("i2f", 32, n)), x)):
            raise Bad()
        return c.st.simp(n)

    def small(self, v, lo, hi):
        """v as a constant within lo..hi, or None if outside."""
        if isinstance(v, int):
            return v if lo <= v <= hi else None
        if not self.c.within(v, lo, hi):
            return None
        return self.c.const(v)

    # ------------------------------------------------------------ operators

    def widen(self, extra):
        """extra operands on a stack-clearing operator."""
        if self.first:
            if extra == 1:
                self.width = self.stack[0]
            elif extra > 1:
                self.wide = False
        elif extra and self.width is None:
            self.wide = False
        self.first = False

    def operator(self):
        """Execute one operator; returns an operation, or None."""
        c = self.c
        code = self.byte()
        if c.eq(code, 12):
            code = add(self.byte(), 0x0C00)
        v = c.pick(code, sorted(T2CODES))
        if v is None:
            raise Bad()
        name = T2CODES[v]
        if name in UNSUPPORTED:
            raise Bad()
        if name in ARITY:
            n = len(self.stack)
            if name in STEMS:
                self.stems += n // 2
            m = longest(n, ARITY[name])
            if m is None:
                raise Bad()
            if name in TAKES_WIDTH:
                self.widen(n - m)
            else:
                if n > m and self.width is None:
                    self.wide = False
                self.first = False
            out = self.stack[n - m :]
            self.stack = []
            return name, out
        if name in ("HintMask", "CntrMask"):
            n = len(self.stack)
            self.stems += n // 2
            k = (self.stems + 7) // 8
            if not self.left(k):
                raise Bad()
            self.frames[-1][1] += k
            self.widen(n % 2)
            self.stack = []
            return name, []
        if name == "EndChar":
            for code, i in self.frames[:-1]:
                if not self.c.eq(code.n, i):
                    raise Loose()
            if self.left() and len(self.frames) > 1:
                raise Loose()
            n = len(self.stack)
            if n in (0, 4):
                extra = 0
            elif n in (1, 5):
                extra = 1
            else:
                extra = 2
            if self.width is None and (not self.first and extra or extra == 2):
                self.wide = False
            elif extra == 1 and self.first:
                self.width = self.stack[0]
            self.over = True
            return None
        getattr(self, "do_" + name.lower())()
        return None

    def binary(self, op):
        b, a = self.pop(), self.pop()
        self.stack.append(self.c.en.fop(op, 32, a, b))

    def do_abs(self):
        self.stack.append(self.c.en.fop("abs", 32, self.pop()))

    def do_neg(self):
        self.stack.append(self.c.en.fop("neg", 32, self.pop()))

    def do_sqrt(self):
        self.stack.append(self.c.en.fop("sqrt", 32, self.pop()))

    def do_add(self):
        self.binary("add")

    def do_sub(self):
        self.binary("sub")

    def do_mul(self):
        self.binary("mul")

    def do_div(self):
        self.binary("div")

    def do_drop(self):
        self.pop()

    def do_exch(self):
        b, a = self.pop(), self.pop()
        self.stack += [b, a]

    def do_dup(self):
        a = self.pop()
        self.stack += [a, a]

    def do_index(self):
        i = self.integer()
        n = len(self.stack)
        if isinstance(i, L):
            i = 0 if not self.c.ge(i, 0) else self.small(i, 0, n - 1)
        elif i < 0:
            i = 0
        if i is None or i >= n:
            raise Bad()
        self.stack.append(self.stack[n - 1 - i])

    def do_roll(self):
        j = self.integer()
        n = self.integer()
        n = self.small(n, 0, len(self.stack))
        if n is None:
            raise Bad()
        if n < 2:
            return
        if isinstance(j, L):
            j = self.residue(j, n)
        j %= n
        top = self.stack[len(self.stack) - n :]
        for i in range(n):
            self.stack[len(self.stack) - n + (i + j) % n] = top[i]

    def residue(self, j, n):
        """j modulo n, by cases."""
        c = self.c
        r = c.en.remc(c.st, j, n) if c.ge(j, 0) else mulc(c.en.remc(c.st, mulc(j, -1), n), -1)
        v = c.pick(r, range(1 - n, n))
        if v is None:
            raise Infeasible()
        return v

    def zero(self, x):
        return self.test("Eq", x, f_const(32, 0.0))

    def push_bool(self, b):
        self.stack.append(f_const(32, 1.0 if b else 0.0))

    def do_and(self):
        b, a = self.pop(), self.pop()
        self.push_bool(not self.zero(b) and not self.zero(a))

    def do_or(self):
        b, a = self.pop(), self.pop()
        self.push_bool(not self.zero(b) or not self.zero(a))

    def do_not(self):
        self.push_bool(self.zero(self.pop()))

    def do_eq(self):
        b, a = self.pop(), self.pop()
        self.push_bool(self.test("Eq", a, b))

    def do_ifelse(self):
        v2, v1, s2, s1 = self.pop(), self.pop(), self.pop(), self.pop()
        self.stack.append(s1 if self.test("Le", v1, v2) else s2)

    def call(self, subs):
        i = self.integer()
        n = len(subs)
        b = bias_of(n)
        if isinstance(i, L):
            k = self.small(i, -b, n - 1 - b)
        else:
            k = i if -b <= i < n - b else None
        if k is None:
            raise Bad()
        if len(self.frames) > 10:
            raise Loose()
        self.frames.append([subs[k + b], 0])

    def do_callsubr(self):
        self.call(self.loc)

    def do_callgsubr(self):
        self.call(self.glob)

    def do_return(self):
        if len(self.frames) == 1:
            raise Bad()
        self.frames.pop()

    # ------------------------------------------------------------ interface

    def next(self):
        """The next operation, or None at the end."""
        while True:
            self.steps -= 1
            if self.steps < 0:
                raise Loose()
            if not self.left():
                if len(self.frames) > 1 or self.stack:
                    raise Loose()
                return None
            start = self.frames[-1][1]
            b = self.byte()
            x = self.number(b)
            if x is not None:
                self.stack.append(x)
                if not self.left():
                    if len(self.frames) > 1:
                        raise Loose()
                    raise Bad()
                continue
            self.frames[-1][1] = start
            op = self.operator()
            if op is not None or self.over:
                return op

    def width_value(self):
        return ANY if not self.wide else ("None",) if self.width is None else ("Some", self.width)


def operation(op):
    return ((op[0],), Seq(*op[1]))


def one_of(c, *a, **k):
    """What the first call of `next` and the width must be."""
    p = T2(c, *a, **k)
    try:
        op = p.next()
    except Bad:
        return (ErrT(), ANY)
    except Loose:
        return ANY
    return (ok(("None",) if op is None else ("Some", operation(op))), p.width_value())


def all_of(c, *a, **k):
    p = T2(c, *a, **k)
    out = []
    try:
        while True:
            op = p.next()
            if op is None:
                break
            out.append(operation(op))
    except Bad:
        return ErrT()
    except Loose:
        return ANY
    return ok((Seq(*out), p.width_value()))


def vectors(en, ty, chunks):
    """A slice of byte vectors."""
    return S(tuple(("e", x) for x in chunks))


def piece(en, p, n):
    return chunk(en, p, n) if isinstance(n, int) else S((("b", "s", p, n),))


def program(cx, label, n, shape=None, glob=(), loc=(), root="program_one", unroll=None, **kw):
    """A charstring of n bytes and subroutines given as (position, length) after it."""

    def args(en, st, sig):
        if shape is not None:
            shape(en, st)
        code = en.alloc(st, piece(en, 0, n))
        g = en.alloc(st, vectors(en, None, [piece(en, p, m) for p, m in glob]))
        l = en.alloc(st, vectors(en, None, [piece(en, p, m) for p, m in loc]))
        return [code, g, l]

    spec = one_of if root == "program_one" else all_of
    subs = dict(glob=[Code(p, m) for p, m in glob], loc=[Code(p, m) for p, m in loc])
    en = cx.engine("unroll", unroll or 4 * (n if isinstance(n, int) else 100) + 20, seconds=30)
    en.no_io_errors = True
    return cx.check(en, cx.outcomes(en, root, args), lambda c, o: spec(c, Code(0, n), **subs, **kw), label)


@prop("P28")
def p28(cx):
    en = cx.engine()
    cx.check(en, cx.outcomes(en, "type2_operator_from", OPAQUE), code_spec(T2CODES, arg(0, 0, 65535)), "type2::Operator::from")


ONE = (32, 246)
FORMS = [[ONE], [(247, 250), None], [(251, 254), None], [28, None, None], [255, None, None, None, None]]


def code_bytes(name):
    k = CODE_OF[name]
    return [k] if k < 256 else [12, k & 255]


def shaped(cx, label, *pieces, extra=(), more=False, **kw):
    """A charstring whose bytes are narrowed one by one; extra: (position, values) elsewhere."""
    flat = []
    for p in pieces:
        flat += list(p) if isinstance(p, (list, tuple)) and not (isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], int)) else [p]

    def shape(en, st):
        put(en, st, 0, *flat)
        for pos, vals in extra:
            put(en, st, pos, *vals)

    n = len(flat)
    if more:
        n = la(atom(("in", ("length",)), n, 2**40))
    return program(cx, label, n, shape, **kw)


@prop("P27")
def p27(cx):
    for k in (1, 2, 3) if cx.tier == "quick" else (1, 2, 3, 4):
        program(cx, "program of %d bytes" % k, k)
    # every form of operand, alone and in company
    for i, f in enumerate(FORMS):
        shaped(cx, "operand of form %d" % i, f, code_bytes("HMoveTo"))
        shaped(cx, "operand of form %d, cut short" % i, f)
        for j, g in enumerate(FORMS):
            shaped(cx, "operands of forms %d and %d" % (i, j), f, g, code_bytes("RMoveTo"))
            for k, h in enumerate(FORMS) if cx.tier != "quick" else ():
                shaped(cx, "operands of forms %d, %d and %d" % (i, j, k), f, g, h, code_bytes("RLineTo"))
    # what follows an operation does not change it
    shaped(cx, "operands after an operation", ONE, code_bytes("HMoveTo"), [28, None, None], code_bytes("VMoveTo"), root="program_all")


@prop("P29")
def p29(cx):
    top = 48
    for name in PATHS:
        for n in range(top + 1):
            shaped(cx, "%s of %d operands" % (name, n), *([ONE] * n), code_bytes(name))
    # one operation does not leak into the next
    for a in PATHS if cx.tier != "quick" else ("RMoveTo", "HLineTo", "HHCurveTo", "Flex"):
        for b in PATHS:
            for n in range(15):
                m = [k for k in range(15) if ARITY[a](k)][-1]
                shaped(cx, "%s, then %s of %d operands" % (a, b, n), *([ONE] * m), code_bytes(a), *([ONE] * n), code_bytes(b), root="program_all")


UNARY = ("Abs", "Neg", "Sqrt")
BINARY = ("Add", "Sub", "Mul", "Div")
ALL = "HLineTo"  # takes any number of operands


@prop("P30")
def p30(cx):
    end = code_bytes(ALL)
    for name in UNARY + BINARY:
        op = code_bytes(name)
        for n in range(5):
            shaped(cx, "%s with %d operands" % (name, n), *([ONE] * n), op, end)
        for i, f in enumerate(FORMS):
            if name in UNARY:
                shaped(cx, "%s of form %d" % (name, i), f, op, end)
            else:
                for j, g in enumerate(FORMS):
                    shaped(cx, "%s of forms %d and %d" % (name, i, j), f, g, op, end)
    # expressions
    for a in UNARY + BINARY:
        for b in UNARY + BINARY:
            shaped(cx, "%s, then %s" % (a, b), ONE, ONE, ONE, code_bytes(a), code_bytes(b), end)
            shaped(cx, "%s, operand, %s" % (a, b), ONE, ONE, code_bytes(a), [28, None, None], code_bytes(b), end)
            if cx.tier != "quick":
                for d in UNARY + BINARY:
                    shaped(cx, "%s, %s, %s" % (a, b, d), ONE, ONE, ONE, ONE, code_bytes(a), code_bytes(b), code_bytes(d), end)
    # limits of the numbers
    big = [255, 127, 255, 255, 255]
    low = [255, 128, 0, 0, 0]
    tiny = [255, 0, 0, 0, 1]
    for a in (big, low, tiny, [139]):
        for b in (big, low, tiny, [139]):
            for name in BINARY:
                shaped(cx, "%s at the limits" % name, a, b, code_bytes(name), end)


def num(v):
    """The bytes of an integer operand."""
    if -107 <= v <= 107:
        return [v + 139]
    return [28, (v >> 8) & 255, v & 255]


def big(v):
    """Code that computes a number from those that can be written."""
    if -32768 <= v <= 32767:
        return num(v)
    q, r = v // 16384, v % 16384
    return big(q) + num(16384) + code_bytes("Mul") + num(r) + code_bytes("Add")


@prop("P31")
def p31(cx):
    end = code_bytes(ALL)
    for name in ("Drop", "Exch", "Dup"):
        for n in range(6):
            shaped(cx, "%s of %d operands" % (name, n), *([ONE] * n), code_bytes(name), end)
        for i, f in enumerate(FORMS):
            shaped(cx, "%s of form %d" % (name, i), ONE, f, code_bytes(name), end)
        for other in ("Drop", "Exch", "Dup"):
            shaped(cx, "%s, then %s" % (name, other), ONE, ONE, ONE, ONE, code_bytes(name), code_bytes(other), end)
    for n in range(6):
        shaped(cx, "Index among %d operands" % n, *([ONE] * n), ONE, code_bytes("Index"), end)
        shaped(cx, "Index among %d operands" % n, *([ONE] * n), [28, None, None], code_bytes("Index"), end)
    for n in (12, 47):
        shaped(cx, "Index among %d operands" % n, *([ONE] * n), ONE, code_bytes("Index"), end)
    # operands that are no integers
    for hi in (0, 1, 255):
        for lo in (0, 1, 128, 255):
            for name in ("Index", "Roll"):
                shaped(cx, "%s by a fraction" % name, ONE, ONE, ONE, [141], [255, 0, hi % 4 if hi < 2 else hi, lo, 0], code_bytes(name), end)
    shaped(cx, "Roll of a fraction", ONE, ONE, ONE, [255, 0, 2, 128, 0], [140], code_bytes("Roll"), end)
    for name in ("Index", "Roll"):
        for n in range(4):
            shaped(cx, "%s with %d operands" % (name, n), *([ONE] * n), code_bytes(name), end)
    top = 6 if cx.tier == "quick" else 9
    for n in range(top):
        for span in range(-2, n + 2):
            for shift in range(-n - 3, n + 4):
                shaped(cx, "Roll of %d among %d" % (span, n), *([ONE] * n), num(span), num(shift), code_bytes("Roll"), end)
    for n in range(1, top):
        shaped(cx, "Roll of %d operands, any span" % n, *([ONE] * n), ONE, num(1), code_bytes("Roll"), end)
        shaped(cx, "Roll of %d operands, any span, backwards" % n, *([ONE] * n), ONE, num(-1), code_bytes("Roll"), end)
        shaped(cx, "Roll of %d operands, any shift" % n, *([ONE] * n), num(n), (100, 178), code_bytes("Roll"), end)
    # computed numbers
    for value in (255, 256, 257, 1000, 32767, 32768, 40000, 65535, 65536, 65537, 65538, 131074, 2**24, 2**24 + 2, 2**30, 2**31 - 128, 2**31, 2**32, 2**32 + 512, 2**33):
        for sign in (1, -1):
            for n in (1, 3, 5):
                shaped(cx, "Index by %d among %d" % (sign * value, n), *([ONE] * n), big(sign * value), code_bytes("Index"), end)
                shaped(cx, "Roll of %d by %d" % (n, sign * value), *([ONE] * (n + 1)), num(n), big(sign * value), code_bytes("Roll"), end)
                shaped(cx, "Roll of %d among %d" % (sign * value, n), *([ONE] * n), big(sign * value), num(1), code_bytes("Roll"), end)
    for n in (2, 3, 7):
        for base in (32767, 65536, 2**24 - 100):
            shaped(cx, "Roll of %d by some more than %d" % (n, base), *([ONE] * (n + 1)), num(n), big(base), (139, 160), code_bytes("Add"), code_bytes("Roll"), end)
    # more operands than a byte counts
    for n in (255, 256, 257, 300):
        shaped(cx, "Index of %d among many" % n, *([ONE] * 302), num(n), code_bytes("Index"), end)
        shaped(cx, "Roll of %d among many" % n, *([ONE] * 302), num(n), num(1), code_bytes("Roll"), end)
    for shift in (-32768, -32767, -1000, 1000, 32767):
        for n in (1, 2, 3, 5, 7, 40):
            shaped(cx, "Roll of %d by %d" % (n, shift), *([ONE] * (n + 1)), num(n), num(shift), code_bytes("Roll"), end)


@prop("P32")
def p32(cx):
    end = code_bytes(ALL)
    for name, k in (("And", 2), ("Or", 2), ("Not", 1), ("Eq", 2), ("IfElse", 4)):
        op = code_bytes(name)
        for n in range(k + 3):
            shaped(cx, "%s with %d operands" % (name, n), *([ONE] * n), op, end)
        for i, f in enumerate(FORMS):
            for j, g in enumerate(FORMS):
                if name == "Not":
                    if j == 0:
                        shaped(cx, "%s of form %d" % (name, i), ONE, f, op, end)
                else:
                    shaped(cx, "%s of forms %d and %d" % (name, i, j), *([ONE] * (k - 2)), f, g, op, end)
        # computed operands
        for other in ("Add", "Mul", "Neg", "Not", "Eq", "And", "Or"):
            shaped(cx, "%s, then %s" % (other, name), *([ONE] * (k - 1)), ONE, ONE, code_bytes(other), op, end)
        # values that are no numbers
        nan, inf = [139, 139] + code_bytes("Div"), [140, 139] + code_bytes("Div")
        for a in (nan, inf, inf + code_bytes("Neg")):
            for b in (nan, inf, [139]):
                if name == "Not":
                    shaped(cx, "Not of no number", a, op, end)
                else:
                    shaped(cx, "%s of no numbers" % name, *([ONE] * (k - 2)), a, b, op, end)
    shaped(cx, "IfElse in company", ONE, ONE, ONE, ONE, ONE, ONE, code_bytes("IfElse"), code_bytes("Add"), end)


@prop("P33")
def p33(cx):
    def stem(name, n):
        return [ONE] * n + code_bytes(name)

    for name in STEMS:
        for n in range(12):
            shaped(cx, "%s of %d operands" % (name, n), *stem(name, n))
        shaped(cx, "%s of 48 operands" % name, *stem(name, 48))
    # masks: their size follows from the stems so far
    for mask in ("HintMask", "CntrMask"):
        m = code_bytes(mask)
        for n in range(0, 40 if cx.tier == "quick" else 49):
            stems = n // 2
            size = (stems + 7) // 8
            for tail in range(max(size - 1, 0), size + 1):
                shaped(cx, "%s after %d operands, %d bytes" % (mask, n, tail), *([ONE] * n), m, *([None] * tail))
            shaped(cx, "%s after %d operands, then a move" % (mask, n), *([ONE] * n), m, *([None] * size), ONE, code_bytes("HMoveTo"), root="program_all")
        for a in STEMS:
            for n in (1, 2, 3, 14, 15, 16, 17, 18, 32, 33):
                for k in (0, 1, 2, 3, 16):
                    size = (n // 2 + k // 2 + 7) // 8
                    shaped(cx, "%s(%d), %s(%d)" % (a, n, mask, k), *stem(a, n), *([ONE] * k), m, *([None] * size), ONE, code_bytes("VMoveTo"), root="program_all")
        # several
        for n1, n2, n3 in ((2, 2, 2), (6, 8, 2), (14, 2, 2), (16, 16, 2), (46, 46, 46), (3, 6, 8)):
            size = (n1 // 2 + n2 // 2 + n3 // 2 + 7) // 8
            s2 = (n1 // 2 + n2 // 2 + 7) // 8
            shaped(cx, "%s after stems of %d, %d and %d operands" % (mask, n1, n2, n3), *stem("HStemHM", n1), *stem("VStemHM", n2), *([ONE] * n3), m, *([None] * size), ONE, code_bytes("HMoveTo"), root="program_all")
            shaped(cx, "two masks after stems of %d and %d operands" % (n1, n2), *stem("HStemHM", n1), *([ONE] * n2), code_bytes("CntrMask"), *([None] * s2), m, *([None] * s2), ONE, code_bytes("HMoveTo"), root="program_all")
            shaped(cx, "masks in an outline after stems of %d and %d operands" % (n1, n2), *stem("HStemHM", n1), *([ONE] * n2), m, *([None] * s2), ONE, code_bytes("HMoveTo"), m, *([None] * s2), ONE, code_bytes("VMoveTo"), root="program_all")
    # stems only count when declared, not when drawing
    shaped(cx, "mask after other operators", *stem("HStem", 4), ONE, ONE, code_bytes("RMoveTo"), *([ONE] * 18), code_bytes("RRCurveTo"), code_bytes("HintMask"), None, ONE, code_bytes("HMoveTo"), root="program_all")


@prop("P34")
def p34(cx):
    end = code_bytes("EndChar")
    first = [(k, m, []) for k in TAKES_WIDTH for m in range(1, 9) if ARITY[k](m)]
    first += [(k, m, None) for k in ("HintMask", "CntrMask") for m in (0, 2, 4)] + [("EndChar", 0, []), ("EndChar", 4, [])]
    for name, m, tail in first:
        if tail is None:
            tail = [None] * ((m // 2 + 7) // 8)
        for f in FORMS:
            shaped(cx, "width on %s of %d operands" % (name, m), f, *([ONE] * m), code_bytes(name), *tail, root="program_all")
        shaped(cx, "no width on %s of %d operands" % (name, m), *([ONE] * m), code_bytes(name), *tail, root="program_all")
        shaped(cx, "no width, and none later, on %s of %d operands" % (name, m), *([ONE] * m), code_bytes(name), *tail, *([ONE] * 2), code_bytes("RLineTo"), end, root="program_all")
        if name == "EndChar":
            continue
        # once known it stays
        later = [(x, [k for k in range(20) if ARITY[x](k)][0]) for x in ARITY]
        if cx.tier == "quick" and (name, m) not in (("HMoveTo", 1), ("HStem", 2), ("CntrMask", 2)):
            later = [("RMoveTo", 2), ("HMoveTo", 1), ("RLineTo", 4), ("RRCurveTo", 6), ("HStem", 2)]
        for second, k in later:
            shaped(cx, "width on %s of %d operands, then %s" % (name, m, second), ONE, *([ONE] * m), code_bytes(name), *tail, *([ONE] * k), code_bytes(second), end, root="program_all")
            for extra in (1, 2):
                shaped(cx, "width on %s of %d operands, then %s with %d more" % (name, m, second, extra), ONE, *([ONE] * m), code_bytes(name), *tail, *([ONE] * (k + extra)), code_bytes(second), root="program_all")
        for second in ("HintMask", "CntrMask"):
            for k in (0, 1, 2, 3):
                size = ((m // 2 if name in STEMS or tail else 0) + k // 2 + 7) // 8
                shaped(cx, "width on %s of %d operands, then %s with %d" % (name, m, second, k), ONE, *([ONE] * m), code_bytes(name), *tail, *([ONE] * k), code_bytes(second), *([None] * size), root="program_all")
        for k in (0, 1, 4, 5):
            shaped(cx, "width on %s of %d operands, end with %d" % (name, m, k), ONE, *([ONE] * m), code_bytes(name), *tail, *([ONE] * k), end, root="program_all")
    # a computed width
    shaped(cx, "computed width", ONE, ONE, code_bytes("Add"), ONE, code_bytes("HMoveTo"), root="program_all")
    shaped(cx, "width among many", *([ONE] * 47), code_bytes("HStemHM"), root="program_all")


@prop("P36")
def p36(cx):
    end = code_bytes("EndChar")
    for n in range(8):
        shaped(cx, "end with %d operands" % n, *([ONE] * n), end)
        shaped(cx, "end with %d operands, then more" % n, *([ONE] * n), end, None, None)
        shaped(cx, "end with %d operands after a move" % n, ONE, ONE, code_bytes("HMoveTo"), *([ONE] * n), end, None, root="program_all")
    program(cx, "empty program", 0)
    # charstrings of any length
    for name in ("HMoveTo", "RMoveTo", "RLineTo", "EndChar", "HStem"):
        m = 0 if name == "EndChar" else [k for k in range(15) if ARITY[name](k)][0] if name in ARITY else 2
        for f in FORMS:
            shaped(cx, "%s, then any number of bytes" % name, *(f * m), code_bytes(name), more=True)
    shaped(cx, "any number of bytes after arithmetic", ONE, ONE, code_bytes("Add"), code_bytes("HMoveTo"), more=True)
    for name in ("HMoveTo", "RLineTo", "HHCurveTo", "Flex"):
        m = [k for k in range(15) if ARITY[name](k)][0]
        shaped(cx, "%s, then nothing" % name, *([ONE] * m), code_bytes(name), root="program_all")
        shaped(cx, "%s, then the end" % name, *([ONE] * m), code_bytes(name), end, root="program_all")
        shaped(cx, "the end, then %s" % name, end, *([ONE] * m), code_bytes(name))


def routines(cx, label, code, glob=(), loc=(), count=None, root="program_all", anything=(), **kw):
    """A program with the given subroutines; each is a list of byte constraints. count: (which
    table, number of subroutines, {index: body}) for a table with many."""
    flat = list(code)
    end = len(flat)
    where = {}
    tables = {"glob": list(glob), "loc": list(loc)}
    if count is not None:
        which, n, bodies = count
        tables[which] = [bodies.get(i, ()) for i in range(n)]
    for name, t in tables.items():
        w = []
        for s in t:
            w.append((end, len(s)))
            flat += list(s)
            end += len(s)
        where[name] = w

    def shape(en, st):
        put(en, st, 0, *flat)

    return program(cx, label, len(code), shape, root=root, unroll=4 * end + 60, **where, **kw)


@prop("P35")
def p35(cx):
    ret, end, h, v = code_bytes("Return"), code_bytes("EndChar"), code_bytes("HMoveTo"), code_bytes("VMoveTo")
    both = (("CallSubr", "loc", "glob"), ("CallGSubr", "glob", "loc"))
    for call, mine, other in both:
        c = code_bytes(call)
        # which of few
        for n in range(5):
            for m in (0, 2):
                subs = {mine: [[ONE] + ret] * n, other: [[ONE, ONE] + ret] * m}
                routines(cx, "%s with %d and %d subroutines" % (call, n, m), [ONE] + c + h, **subs)
                routines(cx, "%s with %d and %d subroutines, any number" % (call, n, m), [28, None, None] + c + h, **subs)
        routines(cx, "%s by a fraction" % call, [255, 255, (148, 151), (0, 1), 0] + c + h, **{mine: [[ONE] + ret] * 3})
        routines(cx, "%s without operand" % call, c + h, **{mine: [[ONE] + ret] * 3})
        # the operands travel, drawing goes on
        routines(cx, "%s with operands below" % call, [ONE, ONE] + num(-107) + c + code_bytes("RLineTo"), **{mine: [[ONE, ONE] + ret]})
        routines(cx, "%s that draws" % call, [ONE] + num(-107) + c + [ONE] + v, **{mine: [[ONE] + code_bytes("RMoveTo") + [ONE] + h + ret]})
        routines(cx, "%s twice" % call, num(-107) + c + num(-106) + c + num(-107) + c + code_bytes(ALL), **{mine: [[ONE] + ret, [ONE, ONE] + ret]})
        routines(cx, "%s of nothing" % call, [ONE] + num(-107) + c + h, **{mine: [ret]})
        routines(cx, "%s that ends" % call, num(-107) + c, **{mine: [[ONE] + h + end]})
        routines(cx, "%s that ends with a width" % call, [ONE] + num(-107) + c, **{mine: [end]})
        routines(cx, "%s that ends later" % call, num(-107) + c + end, **{mine: [[ONE] + h + ret]})
        routines(cx, "%s with arithmetic" % call, [ONE, ONE] + num(-107) + c + h, **{mine: [code_bytes("Add") + ret]})
        routines(cx, "%s by a computed number" % call, num(-100) + num(-6) + code_bytes("Add") + c + h, **{mine: [[ONE] + ret] * 2})
        # stems and width travel, too
        routines(cx, "%s with stems" % call, [ONE, ONE] + code_bytes("HStemHM") + num(-107) + c + code_bytes("HintMask") + [None, None] + [ONE] + h, **{mine: [[ONE] * 14 + code_bytes("VStemHM") + ret]})
        routines(cx, "%s with a mask" % call, [ONE, ONE] + code_bytes("HStemHM") + num(-107) + c + [ONE] + h, **{mine: [[ONE, ONE] + code_bytes("HintMask") + [None] + ret]})
        routines(cx, "%s with stems that end in a mask" % call, num(-107) + c + code_bytes("HintMask") + [None] + [ONE] + h, **{mine: [[ONE] * 3 + ret]})
        routines(cx, "%s with a width" % call, [ONE] + num(-107) + c + [ONE, ONE] + v, **{mine: [[ONE] + h + ret]})
        # errors inside
        routines(cx, "%s with an error" % call, num(-107) + c + [ONE] + h, **{mine: [h + ret]})
        routines(cx, "%s with an unknown operator" % call, num(-107) + c + [ONE] + h, **{mine: [[(0, 31), None] + ret]})
        # many
        far = {0: [ONE] + ret, 1: [ONE, ONE] + ret}
        limits = (107 + 107, 1238, 1239, 1240, 1241, 2300) + ((33898, 33899, 33900, 33901) if True else ())
        for n in limits:
            b = bias_of(n)
            some = dict(far)
            some.update({n - 1: [ONE] * 3 + ret, b: [ONE] * 4 + ret, n // 2: [ONE] * 5 + ret})
            for i in (-1, 0, 1, b, n // 2, n - 1, n):
                if -32768 <= i - b <= 32767:
                    routines(cx, "%s of %d among %d" % (call, i, n), num(i - b) + c + code_bytes(ALL), count=(mine, n, some), root="program_one")
        # numbers at the limits of an integer
        top = [28, 127, 255]
        huge = top + num(2) + code_bytes("Mul") + num(1) + code_bytes("Add") + [255, 127, 255, 255, 255] + code_bytes("Mul")
        for n in (3, 1240):
            for more in (num(0), [28, 127, 128], top, [28, 128, 0]):
                for neg in ([], code_bytes("Neg")):
                    routines(cx, "%s of a huge number among %d" % (call, n), huge + more + code_bytes("Add") + neg + c + h, count=(mine, n, far), root="program_one")
        # subroutines and charstrings of any length
        code, body = num(-107) + c + h, [ONE] + h
        for cn, bn in ((None, 4), (len(code), None), (None, None)):
            m = [k if k is not None else la(atom(("in", ("length", i)), l, 2**40)) for i, (k, l) in enumerate(((cn, len(code)), (bn, len(body))))]

            def long(en, st):
                put(en, st, 0, *code)
                put(en, st, 100, *(body + [11, 14]))

            program(cx, "%s of any length" % call, m[0], long, **{mine: [(100, m[1])]})
    # one inside the other
    for a, ta, _ in both:
        for b, tb, _ in both:
            ca, cb = code_bytes(a), code_bytes(b)
            if ta == tb:
                subs = {ta: [[ONE] + num(-106) + cb + ret, [ONE] + ret]}
                later = {ta: [num(-106) + cb + [ONE] + h + ret, [ONE] + v + ret]}
            else:
                subs = {ta: [[ONE] + num(-107) + cb + ret], tb: [[ONE] + ret]}
                later = {ta: [num(-107) + cb + [ONE] + h + ret], tb: [[ONE] + v + ret]}
            routines(cx, "%s inside %s" % (b, a), num(-107) + ca + code_bytes("RMoveTo"), **subs)
            routines(cx, "%s inside %s, drawing" % (b, a), num(-107) + ca + [ONE, ONE] + code_bytes("RLineTo"), **later)
            routines(cx, "%s inside %s, ending" % (b, a), num(-107) + ca, **dict((k, [x[:-1] + end if i == len(y) - 1 else x[:-1] for i, x in enumerate(y)]) for k, y in subs.items()))
    for depth in range(1, 11):
        chain = [[ONE] + num(-107 + i + 1) + code_bytes("CallSubr") + ret for i in range(depth - 1)] + [[ONE] + ret]
        routines(cx, "subroutines %d deep" % depth, num(-107) + code_bytes("CallSubr") + code_bytes(ALL), loc=chain)
        mixed_ = [[ONE] + num(-107 + i + 1) + code_bytes("CallGSubr" if i % 2 == 0 else "CallSubr") + ret for i in range(depth - 1)] + [[ONE] + ret]
        routines(cx, "subroutines of both kinds %d deep" % depth, num(-107) + code_bytes("CallSubr") + code_bytes(ALL), loc=mixed_, glob=mixed_)
    routines(cx, "return without a call", [ONE] + ret + h, root="program_one")
    routines(cx, "return after a call", num(-107) + code_bytes("CallSubr") + [ONE] + h + ret, loc=[[ONE] + h + ret])
