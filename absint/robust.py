"""What must hold of every input: no panics, no lost failures, an end to every loop."""
from checks import *
import type2

# ---------------------------------------------------------------- the entry points that read

OPS = [reader(OPERATIONS, "Operations", size_atom)]
NUM = [reader(NUMBER, "Number", size_atom)]


def streamed(en, st, sig):
    """A stream, and the remaining arguments unknown."""
    a = OPAQUE(en, st, sig)
    for i, ty in enumerate(sig):
        if "Tape" in en.types[ty]["s"]:
            a[i] = tape(en, st)
    return a


def counted(en, st, sig):
    """A stream, and a number of glyphs."""
    return [tape(en, st), glyphs()]


# (entry point, arguments, readers replaced by their contract)
READERS = [
    ("header", streamed, ()), ("offset", streamed, ()), ("number", streamed, ()), ("operations", streamed, NUM),
    ("index", streamed, ()), ("names", streamed, ()), ("strings", streamed, ()), ("subroutines", streamed, ()),
    ("dictionaries", streamed, ()), ("character_strings", streamed, ()),
    ("character_set", counted, ()), ("character_set0", counted, ()), ("character_set1", counted, ()),
    ("character_set2", counted, ()),
    ("encoding", streamed, ()), ("encoding0", streamed, ()), ("encoding1", streamed, ()),
    ("encoding_supplemental", streamed, ()),
    ("cid_encoding0", streamed, ()), ("cid_encoding3", streamed, ()), ("cid_encoding", streamed, ()),
    ("cid_inner", at_position, COMPONENTS), ("name_record", at_position, COMPONENTS),
    ("cid_record", at_position, COMPONENTS), ("record", at_position, COMPONENTS),
    ("font_set_count", streamed, ()), ("font_set", streamed, FONTPARTS), ("peek", streamed, ()),
]
QUERIES = [
    "operations_get", "operations_get_single", "operations_get_double", "operator_from", "operator_default",
    "names_into", "strings_get", "dictionaries_into", "character_set_get", "encoding_get", "string_id",
    "number_from_f32", "number_from_i32", "type2_operator_from", "program_new", "program_width",
    "deref_names", "deref_strings", "deref_subroutines", "deref_character_strings", "deref_dictionaries",
    "default_subroutines",
]


def returns(c, o):
    """Anything but a panic."""
    return ANY if o.kind == "return" else ErrT()


@prop("P01")
def p01(cx):
    for root, args, parts in READERS:
        en = cx.engine("accel", 0, overrides=list(parts), seconds=120)
        cx.check(en, cx.outcomes(en, root, args), returns, root)
    for root in QUERIES:
        en = cx.engine("accel", 0, overrides=OPS, seconds=60)
        cx.check(en, cx.outcomes(en, root, OPAQUE), returns, root)
    # asking for a dictionary that is not there is a mistake of the caller
    for n in range(1, 5):

        def present(en, st, sig):
            ty = en.types[sig[0]]["ty"]
            return [en.alloc(st, index_value(en, ty, [chunk(en, 8 * i, 5) for i in range(n)]), ty), la(atom(("in", ("which",)), 0, n - 1))]

        en = cx.engine("mixed", 12, overrides=OPS, seconds=60)
        cx.check(en, cx.outcomes(en, "dictionaries_get", present), returns, "dictionaries_get among %d" % n)
    en = cx.engine("accel", 0, overrides=COMPONENTS, seconds=300)
    cx.check(en, cx.outcomes(en, "font_set", streamed), returns, "font_set with its records")


# ---------------------------------------------------------------- P04 failures of the stream


def at_end(c, e):
    """Is the failure the end of the data?"""
    en = c.en
    for i, t in enumerate(en.types):
        if t["k"] == "adt" and t["name"] == "std::io::ErrorKind":
            return c.eq(la(en.odiscr(c.st, O(i, ("kind",) + e[-1]))), en.variant_index(i, "UnexpectedEof"))
    return False


@prop("P04")
def p04(cx):
    def surfaces(c, o):
        return ErrT("io") if c.failed() else ANY

    def unless_at_end(c, o):
        f = c.failed()
        if not f or any(at_end(c, e) for e in f):
            return ANY
        return ErrT("io")

    for root, args, parts in READERS:
        en = cx.engine("accel", 0, overrides=list(parts), seconds=120)
        cx.check(en, cx.outcomes(en, root, args), unless_at_end if root == "operations" else surfaces, root)
    en = cx.engine("accel", 0, overrides=COMPONENTS, seconds=300)
    cx.check(en, cx.outcomes(en, "font_set", streamed), surfaces, "font_set with its records")


# ---------------------------------------------------------------- P02 interpretation

ANYOP = (0, 31)
COMPUTED = [[28, None, None], [28, None, None]] + [type2.code_bytes("Div")]


def runs(cx, label, *pieces, root="program_all", glob=(), loc=(), **kw):
    flat = []
    for p in pieces:
        flat += list(p) if isinstance(p, (list, tuple)) and not (isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], int)) else [p]
    out, flat2 = [], []
    for p in flat:
        flat2 += p if isinstance(p, list) else [p]
    n = len(flat2)
    tables = []
    for t in (glob, loc):
        w = []
        for s in t:
            w.append((len(flat2), len(s)))
            flat2 += list(s)
        tables.append(w)

    def shape(en, st):
        type2.put(en, st, 0, *flat2)

    def args(en, st, sig):
        shape(en, st)
        code = en.alloc(st, type2.chunk(en, 0, n))
        return [code] + [en.alloc(st, type2.vectors(en, None, [type2.chunk(en, p, m) for p, m in t])) for t in tables]

    en = cx.engine("unroll", 4 * len(flat2) + 60, seconds=60)
    en.no_io_errors = True
    return cx.check(en, cx.outcomes(en, root, args), returns, label)


@prop("P02")
def p02(cx):
    ONE, code_bytes, num = type2.ONE, type2.code_bytes, type2.num
    ret = code_bytes("Return")
    few = dict(glob=[[ONE] + ret], loc=[[ONE] + ret, [ONE, ONE] + ret])
    sizes = list(range(15)) + [24, 47, 48, 49, 96]
    wild = ("Index", "Roll", "CallSubr", "CallGSubr")
    for n in sizes:
        # every operator of one byte but the two calls, and every one of two bytes but the two that take numbers as positions
        for lo, hi in ((0, 9), (11, 11), (13, 28), (30, 31)):
            runs(cx, "any operator on %d operands" % n, *([ONE] * n), (lo, hi), None, None, **few)
        for lo, hi in ((0, 28), (31, 255)):
            runs(cx, "any operator on %d operands" % n, *([ONE] * n), 12, (lo, hi), None, **few)
        for name in wild:
            op = code_bytes(name)
            if name in ("Index", "Roll") and n > 49:
                continue
            for arg in ([ONE], [28, None, None], [255, None, None, None, None], COMPUTED):
                if name == "Roll":
                    for span in (-1, 0, 1, 2, 3, n - 1, n, n + 1) if n < 10 else (n,):
                        runs(cx, "%s of %d among %d operands" % (name, span, n), *([ONE] * n), num(span), *arg, op, **few)
                    if n < 6:
                        runs(cx, "%s among %d operands" % (name, n), *([ONE] * n), *arg, num(1), op, **few)
                else:
                    runs(cx, "%s among %d operands" % (name, n), *([ONE] * n), *arg, op, **few)


# ---------------------------------------------------------------- P03 everything comes to an end


def no_hang(cx, outs, label, exact=False):
    """exact: the program is known, so that running on without end shows."""
    for o in outs:
        why = str(o.val) if o.kind == "undecided" else ""
        bad = E.HANG in why or exact and why in ("loop bound", "call depth")
        if why and not bad:
            cx.res.undecided.append((label, why))
        else:
            cx.table(label, not bad, why + " in " + (o.where[-1] if o.where else label))


def charstring(cx, root, code, glob=(), loc=()):
    """Analyse a charstring of known bytes; the engine and the outcomes."""
    flat = list(code)
    tables = []
    for t in (glob, loc):
        w = []
        for s in t:
            w.append((len(flat), len(s)))
            flat += list(s)
        tables.append(w)

    def args(en, st, sig):
        type2.put(en, st, 0, *flat)
        c = en.alloc(st, type2.chunk(en, 0, len(code)))
        return [c] + [en.alloc(st, type2.vectors(en, None, [type2.chunk(en, p, m) for p, m in t])) for t in tables]

    en = cx.engine("unroll", 100000, seconds=100)
    en.no_io_errors = True
    return en, cx.outcomes(en, root, args)


@prop("P03")
def p03(cx):
    for root, args, parts in READERS:
        en = cx.engine("accel", 0, overrides=list(parts), seconds=120)
        en.sticky = True
        no_hang(cx, cx.outcomes(en, root, args), root)
    for root in QUERIES:
        en = cx.engine("accel", 0, overrides=OPS, seconds=60)
        en.sticky = True
        no_hang(cx, cx.outcomes(en, root, OPAQUE), root)
    code_bytes, num = type2.code_bytes, type2.num
    ret = code_bytes("Return")
    first, second = num(-107), num(-106)
    for call, mine, other in (("CallSubr", "loc", "glob"), ("CallGSubr", "glob", "loc")):
        c = code_bytes(call)
        back = code_bytes("CallGSubr" if call == "CallSubr" else "CallSubr")
        cases = {
            "calls itself": {mine: [first + c]},
            "calls itself before returning": {mine: [first + c + ret]},
            "calls itself with an operand": {mine: [[140] + first + c + ret]},
            "calls itself, drawing": {mine: [[140] + code_bytes("HMoveTo") + first + c + ret]},
            "calls one that calls it": {mine: [second + c, first + c]},
            "calls one that calls it, returning": {mine: [second + c + ret, [140] + first + c + ret]},
            "calls one of the other kind that calls it": {mine: [first + back + ret], other: [first + c + ret]},
        }
        for what, subs in cases.items():
            label = "a subroutine (%s) that %s" % (call, what)
            en, outs = charstring(cx, "program_all", first + c, **subs)
            no_hang(cx, outs, label, exact=True)
            for o in outs:
                if o.kind == "return":
                    v = SP.plain(en, o.st, o.val)
                    cx.table(label, isinstance(v, tuple) and v[0] == "Err", "accepted")
    # positions and counts far beyond the operands
    huge = [28, 127, 255] * 2 + code_bytes("Mul") + num(2) + code_bytes("Mul")
    for n in (1, 2, 3, 7):
        for neg in ([], code_bytes("Neg")):
            for op in ("Roll", "Index"):
                label = "%s by a huge number" % op
                en, outs = charstring(cx, "program_one", [140] * n + num(n) * (op == "Roll") + huge + neg + code_bytes(op) + code_bytes("RMoveTo"))
                no_hang(cx, outs, label, exact=True)
            label = "Roll of a huge number of operands"
            en, outs = charstring(cx, "program_one", [140] * n + huge + neg + num(1) + code_bytes("Roll") + code_bytes("RMoveTo"))
            no_hang(cx, outs, label, exact=True)
    # the stack of the interpreter does not grow with the program
    shapes = {
        "arithmetic": ([140], [140] + code_bytes("Add"), code_bytes("HMoveTo"), {}),
        "conditionals": ([140], code_bytes("Not"), code_bytes("HMoveTo"), {}),
        "stack operators": ([140], code_bytes("Dup") + code_bytes("Drop"), code_bytes("HMoveTo"), {}),
        "operands": ([], [140] + code_bytes("Drop"), [140] + code_bytes("HMoveTo"), {}),
        "moves": ([], [140] + code_bytes("HMoveTo"), code_bytes("EndChar"), {}),
        "hints": ([], [140, 140] + code_bytes("HStemHM"), code_bytes("EndChar"), {}),
        "subroutines": ([], first + code_bytes("CallSubr"), code_bytes("EndChar"), dict(loc=[ret])),
        "global subroutines": ([], first + code_bytes("CallGSubr"), code_bytes("EndChar"), dict(glob=[ret])),
    }
    for what, (head, body, tail, subs) in shapes.items():
        deep = []
        for n in (10, 60):
            en, outs = charstring(cx, "program_all", head + body * n + tail, **subs)
            no_hang(cx, outs, "a program of %d pieces (%s)" % (n, what), exact=True)
            deep.append(en.maxdepth)
        cx.table("depth of the interpreter on %s" % what, deep[1] - deep[0] < 25, "the calls nest %d deep for 10 of them and %d deep for 60" % tuple(deep))
    # nor does that of the readers with the data
    streams = {
        "index": lambda n: [0, n, 1] + [1] * (n + 1),
        "names": lambda n: [0, n, 1] + [1] * (n + 1),
        "number": lambda n: [30] + [0x11] * n + [0xFF],
        "encoding": lambda n: [0, n] + [1] * n,
        "encoding1": lambda n: [1, n] + [1, 0] * n,
        "encoding_supplemental": lambda n: [n] + [1, 0, 1] * n,
        "cid_encoding3": lambda n: [3, 0, n] + [0, 0, 0] * n + [0, 0],
    }
    counts = {
        "character_set0": lambda n: [0] + [0, 1] * n,
        "character_set1": lambda n: [1] + [0, 1, 0] * n,
        "character_set2": lambda n: [2] + [0, 1, 0, 0] * n,
    }
    for root in list(streams) + list(counts):
        deep = []
        for n in (10, 60):
            data = streams[root](n) if root in streams else counts[root](n)

            def args(en, st, sig):
                put(en, st, 0, *data)
                a = streamed(en, st, sig)
                if root in counts:
                    a[1] = n + 1
                return a

            en = cx.engine("unroll", 2000, seconds=60)
            en.no_io_errors = True
            no_hang(cx, cx.outcomes(en, root, args), "%s of %d pieces" % (root, n), exact=True)
            deep.append(en.maxdepth)
        cx.table("depth of the calls in %s" % root, deep[1] - deep[0] < 25, "the calls nest %d deep for 10 pieces and %d deep for 60" % tuple(deep))
    deep = []
    for n in (10, 60):

        def index(en, st, sig):
            put(en, st, 0, *([140, 15] * n))
            d = index_value(en, en.types[sig[0]]["ty"], [chunk(en, 0, 2 * n)])
            return [en.alloc(st, d, en.types[sig[0]]["ty"]), 0]

        en = cx.engine("mixed", 200, seconds=60)
        no_hang(cx, cx.outcomes(en, "dictionaries_get", index), "a dictionary of %d operations" % n, exact=True)
        deep.append(en.maxdepth)
    cx.table("depth of the calls in a dictionary", deep[1] - deep[0] < 25, "the calls nest %d deep for 10 operations and %d deep for 60" % tuple(deep))


# ---------------------------------------------------------------- P37 effects

OUTSIDE = re.compile(
    r"^(std|core|alloc)::(env|fs|net|process|thread|time|os|arch)::|^std::io::(stdin|stdout|stderr|stdio::)|^std::io::_e?print"
    r"|^std::(sync::(atomic|Mutex|RwLock|mpsc|Once\b)|panic::(set_hook|take_hook))|^core::sync::atomic"
)
HARMLESS = re.compile(r"^std::thread::local::LocalKey|RandomState")


def callees(body):
    """(called function, span) of a body, references to functions included."""
    for b in body["blocks"]:
        t = b["t"]
        if t[0] == "call" and len(t) > 7 and isinstance(t[7], str):
            yield t[7], t[6]


@prop("P37")
def p37(cx):
    insts = cx.dump["insts"]
    seen = 0
    for i, inst in enumerate(insts):
        if inst["crate"] not in ("postscript", "typeface", "harness") or not inst["body"]:
            continue
        cx.insts.add(i)
        bad = sorted(set("%s (%s:%s)" % (f, s[0], s[1]) for f, s in callees(inst["body"]) if OUTSIDE.search(f) and not HARMLESS.search(f)))
        seen += 1
        cx.table(inst["name"], not bad, "reaches outside of its data: " + ", ".join(bad))
    cx.an.append(("functions of the crate and of the stream primitives", seen))
