"""Command line of the checks: run one property, report, write the evidence."""
import json
import os
import re
import sys
import threading
import time

sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)

from lib import *
import engine as E
import checks
import type2
import robust

KNOWN = os.path.join(VERIF, "known-findings.json")


def known(pid):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)) if k.get("property") == pid and "key" in k]


def main(argv):
    out = []
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    t = threading.Thread(target=lambda: out.append(go(argv)), daemon=True)
    t.start()
    t.join(700 if tier == "quick" else 3400)
    if t.is_alive():
        # a single step takes too long: report what has been decided so far
        a = RUNNING.get("args")
        if a is None:
            print("the program could not be extracted in time")
            out.append(2)
        else:
            a[0].res.undecided.append((argv[0], "out of time"))
            out.append(report(*a))
        sys.stdout.flush()
        os._exit(out[0])
    return out[0] if out else 2


RUNNING = {}


def go(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    dump, missing = extract()
    return decide(pid, tier, seed, t0, dump, missing)


def decide(pid, tier, seed, t0, dump, missing, quiet=False):
    budget = 480 if tier == "quick" else 3000
    cx = Ctx(dump, missing, tier, budget)
    cx.seed = seed
    kn = known(pid)
    cx.known = [k["key"] for k in kn]
    args = (cx, pid, tier, seed, t0, kn, missing, quiet)
    RUNNING["args"] = args
    try:
        checks.CHECKS[pid](cx)
    except Enough:
        pass
    except E.INTERNAL as e:
        cx.res.undecided.append((pid, "internal: %r" % e))
    return report(*args)


def report(cx, pid, tier, seed, t0, kn, missing, quiet):
    res = cx.res
    hits, news = {}, []
    for v in res.violations:
        for k in kn:
            if re.fullmatch(k["key"], v.key):
                hits.setdefault(k["key"], (k, v))
                break
        else:
            news.append(v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for k, v in hits.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    if news:
        rc = 1
        seen = {}
        for v in news:
            seen.setdefault(v.key, v)
        path = os.path.join(VERIF, "evidence", "%s.violation.txt" % pid)
        with open(path, "w") as f:
            for v in list(seen.values())[:20]:
                f.write(v.text + "\n")
                f.write("  in: %s\n" % " <- ".join(reversed(v.where)))
                f.write("  input class: %s\n" % v.pc)
                f.write("  member: %s\n\n" % json.dumps(v.input, sort_keys=True))
        for v in list(seen.values())[:3]:
            print(v.text[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    und = {}
    for l, w in res.undecided:
        und[(l, w[:160])] = und.get((l, w[:160]), 0) + 1
    if not quiet:
        for (l, w), n in list(und.items())[:12]:
            print("undecided: %s: %s (%d)" % (l, w[:300], n))
    man = {}
    try:
        man = [c for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"] if c["property"] == pid][0]
    except (OSError, IndexError, ValueError):
        pass
    level = man.get("level", "other")
    names = sorted(set(cx.names()))
    cov = {
        "explanation": "Abstract interpretation of the crate's MIR from the entry points below; every path summary is compared with the property's transfer function.",
        "obligations": res.proved + len(res.undecided) + len(res.violations),
        "discharged": res.proved,
        "undecided": len(res.undecided),
        "undecided_reasons": [{"where": l, "why": w, "count": n} for (l, w), n in list(und.items())[:20]],
        "checker_cmd": man.get("quick_cmd", "python3 check.py %s" % pid),
        "trusted_base": ["rustc's MIR of the current tree", "driver/main.rs", "absint/*.py (interpreter, library models, specification)"],
        "entry_points": [{"entry": l, "paths": n} for l, n in cx.an],
        "functions": names,
        "blocks_interpreted": cx.steps,
        "calls": cx.calls,
        "loops_summarised": cx.loops,
        "panic_sites_met": cx.asserts,
        "notes": cx.notes + (["entry points not offered by this tree: " + ", ".join(missing)] if missing else []),
        "samples": [v.text[:300] for v in res.violations[:3]] or cx.samples[:5],
    }
    ev = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": checks.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(news),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w"), indent=1)
    if not quiet:
        print("%s: %d obligations discharged, %d undecided, %d violated; %d functions, %.1fs" % (pid, res.proved, len(res.undecided), len(res.violations), len(names), time.time() - t0))
    return rc
