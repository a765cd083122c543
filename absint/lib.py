"""Shared parts of the checks: obtaining the analysed program, entry states, component summaries."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import engine as E
import models as M
import spec as SP
from engine import Und, Infeasible, N, R, S, A, O, T
from terms import *
from spec import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


# ---------------------------------------------------------------- the program


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()


def driver():
    """The exporter, rebuilt when its source changed."""
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(VERIF, "build", "driver-" + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="drv", dir=os.path.dirname(out))
        t = os.path.join(tmp, "driver")
        env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"))
        p = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", t], capture_output=True, text=True, env=env)
        if p.returncode:
            raise RuntimeError("exporter does not build: " + p.stderr[-2000:])
        os.rename(t, out)
        shutil.rmtree(tmp)
    return out


def extract():
    """Export the typed program of the current tree. Returns (dump, missing roots, note)."""
    sys_ = sysroot()
    d = driver()
    tmp = tempfile.mkdtemp(prefix="postscript-mir")
    try:
        h = os.path.join(tmp, "h")
        shutil.copytree(os.path.join(VERIF, "harness"), h, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        if REPO != "/repo":
            f = os.path.join(h, "Cargo.toml")
            s = open(f).read().replace("/repo", REPO)
            open(f, "w").write(s)
        out = os.path.join(tmp, "dump.json")
        env = dict(
            os.environ,
            LD_LIBRARY_PATH=os.path.join(sys_, "lib"),
            RUSTC_WORKSPACE_WRAPPER=d,
            MIRDUMP_OUT=out,
            CARGO_TARGET_DIR=os.path.join(tmp, "target"),
            RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Coverflow-checks=on -Cdebug-assertions=on",
        )
        missing = []
        for _ in range(12):
            p = subprocess.run(
                ["cargo", "+nightly", "check", "--offline", "--message-format=json"], cwd=h, env=env, capture_output=True, text=True
            )
            if p.returncode == 0 and os.path.exists(out):
                return json.load(open(out)), missing
            # entry points the analysed crate no longer offers are left out
            bad = set()
            for line in p.stdout.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and "harness" in m.get("package_id", "") + m.get("target", {}).get("name", ""):
                    for sp in m["message"]["spans"]:
                        if sp["is_primary"]:
                            bad.add(sp["line_start"])
            n = drop_items(os.path.join(h, "src", "lib.rs"), bad, missing)
            if not n:
                raise RuntimeError("the analysed tree does not compile:\n" + p.stderr[-3000:] + p.stdout[-2000:])
        raise RuntimeError("the analysed tree does not compile with the entry points")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def drop_items(path, lines, missing):
    src = open(path).read().split("\n")
    n = 0
    for ln in lines:
        i = ln - 1
        while i >= 0 and not re.match(r"(pub fn|use|impl)\b", src[i]):
            i -= 1
        if i < 0:
            continue
        m = re.match(r"pub fn (\w+)", src[i])
        if not m:
            continue
        j = i
        while j < len(src) and src[j] != "}":
            j += 1
        missing.append(m.group(1))
        for k in range(i, j + 1):
            src[k] = ""
        n += 1
    open(path, "w").write("\n".join(src))
    return n


# ---------------------------------------------------------------- entry states


def tape(en, st, name="s", pos=0):
    return en.alloc(st, N("tape", name, pos))


def err_value(en, rty, what):
    """Err(opaque stream error) of a Result type."""
    t = en.types[rty]
    i = en.variant_index(rty, "Err")
    ety = t["variants"][i]["fields"][0][1]
    return A(rty, i, (O(ety, ("ioerr",) + what),))


def ok_value(en, rty, v):
    return A(rty, en.variant_index(rty, "Ok"), (v,))


def ok_type(en, rty):
    return en.types[rty]["variants"][en.variant_index(rty, "Ok")]["fields"][0][1]


class Ctx:
    """One property's run."""

    def __init__(self, dump, missing, tier, budget):
        self.dump, self.missing, self.tier = dump, missing, tier
        self.t0 = time.time()
        self.end = time.time() + budget
        self.res = SP.Result()
        self.an = []
        self.notes = []
        self.insts = set()
        self.samples = []
        self.known, self.bad, self.extra = [], 0, 120
        self.steps = self.forks = self.loops = self.calls = self.asserts = self.discharged = 0

    def engine(self, mode="accel", unroll=0, overrides=(), no_io=False, seconds=120):
        en = E.Engine(self.dump)
        en.mode, en.unroll = mode, unroll
        en.overrides = list(overrides)
        en.no_io_errors = no_io
        en.deadline = min(self.end, time.time() + seconds)
        return en

    def has(self, root):
        return any(n.split("::")[-1] == root for n, _ in self.dump["roots"])

    def outcomes(self, en, root, args):
        """Analyse an entry point; args(en, st, sig) gives the argument values."""
        if not self.has(root):
            self.notes.append("entry point %s is gone" % root)
            return []
        iid = en.root_ids[root]
        sig = en.insts[iid]["body"]["locals"][1 : en.insts[iid]["body"]["argc"] + 1]
        try:
            en.entry = (root, args, sig)
            outs = en.analyse(root, lambda e, s: args(e, s, sig))
        except RecursionError:
            self.res.undecided.append((root, "analysis depth"))
            outs = []
        except E.INTERNAL as e:
            self.res.undecided.append((root, "internal: %r" % e))
            outs = []
        self.account(en, root, outs)
        if os.environ.get("VERIF_TRACE"):
            print("  [%.1fs] %s: %d outcomes" % (time.time() - self.t0, root, len(outs)), flush=True)
        return outs

    def account(self, en, label, outs):
        self.insts |= set(i for i in en.stats["insts"])
        self.steps += en.stats["steps"]
        self.forks += en.stats["forks"]
        self.loops += en.stats["loops"]
        self.calls += en.stats["calls"]
        self.asserts += en.stats["asserts"]
        self.discharged += en.stats["panics_discharged"]
        for k in ("steps", "forks", "loops", "calls", "asserts", "panics_discharged"):
            en.stats[k] = 0
        self.an.append((label, len(outs)))

    def check(self, en, outs, spec, label, **kw):
        def confirm(w):
            return self.confirm(en, w, spec, label, kw)

        if time.time() > self.end:
            self.res.undecided.append((label, "out of time"))
            return SP.Result()
        r = SP.check_outcomes(en, outs, spec, label, confirm=confirm if getattr(en, "entry", None) else None, end=self.end, **kw)
        if r.undecided and not r.violations and en.mode == "accel" and getattr(en, "entry", None):
            r.violations += self.members(en, spec, label, kw)
        if os.environ.get("VERIF_TRACE"):
            print("  [%.1fs] %s: %d proved, %d undecided, %d violated" % (time.time() - self.t0, label, r.proved, len(r.undecided), len(r.violations)), flush=True)
        self.res.merge(r)
        if sum(not self.listed(v) for v in r.violations):
            self.bad += 1
            if self.bad >= 25:
                self.notes.append("stopped after 25 entry points with violations")
                raise Enough()
        return r

    def listed(self, v):
        """Is it a known finding?"""
        return any(re.fullmatch(k, v.key) for k in self.known)

    def names(self):
        return [self.dump["insts"][i]["name"] for i in self.insts if self.dump["insts"][i]["crate"] in ("postscript", "typeface")]

    def members(self, en, spec, label, kw):
        """Where a summarised loop leaves something open: violations on the paths with a few turns, taken exactly."""
        root, args, sig = en.entry
        for turns in (1, 3):
            t = time.time()
            if self.extra <= 0 or t > self.end:
                break
            e2 = E.Engine(self.dump)
            e2.mode, e2.unroll, e2.overrides = "unroll", turns, en.overrides
            e2.no_io_errors, e2.sticky = en.no_io_errors, en.sticky
            e2.entry = en.entry
            e2.deadline = min(self.end, t + min(30, self.extra))
            try:
                outs = e2.analyse(root, lambda e, s: args(e, s, sig))
                r = SP.check_outcomes(
                    e2, outs, spec, label, limit=1, end=min(self.end, t + min(60, self.extra)), confirm=lambda w: self.confirm(e2, w, spec, label, kw), **dict(kw)
                )
            except (RecursionError, Infeasible, Und) + E.INTERNAL:
                continue
            finally:
                self.extra -= time.time() - t
            if r.violations:
                return r.violations
        return []

    def confirm(self, en, w, spec, label, kw):
        """Re-analyse with the entry state narrowed to the member found."""
        return any(self.confirm1(en, w, spec, label, kw, deep) for deep in (False, True))

    def confirm1(self, en, w, spec, label, kw, deep):
        root, args, sig = en.entry

        def narrowed(e, s):
            for (src, pos), v in w.at.items():
                b = e.byte(src, pos)
                s.setrange(b, v, v)
            a = args(e, s, sig)
            for x, v in w.items():
                if isinstance(x, Atom) and x.key[0] not in ("byte", "k", "pos") and not any(y.key[0] == "k" for y in atoms_of(x.key)):
                    s.setrange(x, v, v)
                    inner = {y: z for y, z in w.items() if y is not x and isinstance(y, Atom) and y in atoms_of(x.key)}
                    if inner and deep:
                        # the same quantity once what it depends on is known
                        y = subst(la(x), inner, e.rebuild)
                        if isinstance(y, L) and len(y.t) == 1 and y.t[0][1] == 1 and y.c == 0:
                            s.setrange(y.t[0][0], v, v)
            return a

        if deep and not any(isinstance(x, Atom) and any(isinstance(y, Atom) and y is not x and y in atoms_of(x.key) for y in w) for x in w):
            return False
        e2 = E.Engine(self.dump)
        e2.mode, e2.unroll, e2.overrides = en.mode, max(en.unroll, 400), en.overrides
        e2.no_io_errors = en.no_io_errors
        e2.sticky = en.sticky
        e2.deadline = min(self.end, time.time() + 20)
        try:
            outs = e2.analyse(root, narrowed)
        except (RecursionError, Infeasible):
            return False
        r = SP.check_outcomes(e2, outs, spec, label, limit=1, end=min(self.end, time.time() + 30), **kw)
        return bool(r.violations)

    def table(self, label, ok, text=None):
        """A finite obligation decided directly."""
        self.res.paths += 1
        if ok:
            self.res.proved += 1
        else:
            self.res.violations.append(Plain(label, text))


class Enough(Exception):
    """There are violations enough to report."""


class Plain:
    def __init__(self, label, text):
        self.label, self.text = label, "%s: %s" % (label, text)
        self.where, self.input, self.pc, self.key = [], {}, "", label


def with_pos(cell_of=("h", 1)):
    """Observe the value together with the position of the tape on success."""

    def obs(cx, o):
        v = SP.plain(cx.en, cx.st, o.val)
        t = cx.st.mem.get(cell_of)
        if isinstance(v, tuple) and v and v[0] == "Ok" and isinstance(t, N) and t.kind == "tape":
            return ("Ok", v[1], cx.st.simp(t.f[1]))
        return v

    return obs


# ---------------------------------------------------------------- component summaries


def reader(pattern, name, size, ok=None, fail=True, placed=True):
    """Replace a reader by its contract: it consumes `size` bytes and returns a value that is a
    function of the position (and argument), or fails. placed: whether the value depends on where
    the stream is, or on the argument alone."""
    rx = re.compile(pattern)

    def pred(inst):
        return rx.search(inst["name"]) is not None and inst["kind"] != "shim"

    def fn(en, st, inst, args, dty):
        r = args[0]
        while True:
            tv = en.read(st, r.cell, r.path)
            if isinstance(tv, R):
                r = tv
                continue
            break
        if not (isinstance(tv, N) and tv.kind in ("tape", "cursor")):
            return NotImplemented
        kind = tv.kind
        src, pos = tv.f[0], st.simp(tv.f[1])
        if kind == "cursor":
            src = freeze(en, st, src)
        extra = ()
        at = pos
        if not placed:
            at = 0
        if len(args) > 1:
            extra = (freeze(en, st, args[1]),)
        key = ("ent", name, src, at) + extra
        out = []
        if M.dead(en, st, src):
            return [(st, err_value(en, dty, ("dead", src)))]
        if fail and getattr(en, "sticky", False):
            s = st.copy()
            s.ev = s.ev + (("dead", src), ("fail", name, src, pos, ("ioerr", "dead", src)))
            out.append((s, err_value(en, dty, ("dead", src))))
        elif fail and not getattr(en, "no_io_errors", False):
            s = st.copy()
            s.ev = s.ev + (("fail", name, src, pos, ("ioerr",) + key),)
            en.write(s, r.cell, r.path, N(kind, tv.f[0], la(atom(("in", ("failpos", name, src, pos)), 0, 2**63, exact=False))))
            out.append((s, err_value(en, dty, key)))
        n = size(en, st, key) if callable(size) else size
        st.ev = st.ev + (("ent", name, src, pos) + extra,)
        en.write(st, r.cell, r.path, N(kind, tv.f[0], add(pos, n)))
        v = ok(en, st, ok_type(en, dty), key) if ok else en.opaque(st, ok_type(en, dty), key)
        out.append((st, ok_value(en, dty, v)))
        return out

    return (pred, fn)


def freeze(en, st, v):
    """An argument as part of a name."""
    try:
        p = SP.plain(en, st, v)
    except Und:
        return ("?",)
    return frz(p)


def frz(p):
    if isinstance(p, SP.Rec):
        return ("rec", p.name) + tuple((n, frz(x)) for n, x in p.f.items())
    if isinstance(p, SP.PS):
        return ("seq",) + tuple(frz(x) if not isinstance(x, tuple) else tuple(frz(y) for y in x) for x in p.segs)
    if isinstance(p, tuple):
        return tuple(frz(x) for x in p)
    if isinstance(p, O):
        return p.key
    return p


def size_atom(en, st, key):
    return la(atom(("in", ("size",) + key[1:]), 1, 2**20))


NUMBER = r"^<postscript::compact1::Number as postscript::value::Read>::read"
INDEX = r"^<postscript::compact1::(index::)?Index as postscript::value::Read>::read"
OPERATIONS = r"^<postscript::compact1::Operations as postscript::value::Read>::read"
CHARSET = r"^<postscript::compact1::(character_set::)?CharacterSet as postscript::walue::Read<'static>>::read"
ENCODING = r"^<postscript::compact1::(encoding::)?Encoding as postscript::value::Read>::read"
FDSELECT = r"^<postscript::compact1::font_set::character_id_keyed::Encoding as postscript::walue::Read<.*>>::read"
INNER = r"^<postscript::compact1::font_set::character_id_keyed::RecordInner as postscript::walue::Read<.*>>::read"
CIDRECORD = r"^<postscript::compact1::font_set::character_id_keyed::Record as postscript::walue::Read<.*>>::read"
NAMERECORD = r"^<postscript::compact1::font_set::character_name_keyed::Record as postscript::walue::Read<.*>>::read"
RECORD = r"^<postscript::compact1::font_set::Record as postscript::walue::Read<.*>>::read"
