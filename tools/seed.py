#!/usr/bin/env python3
"""Plant bugs in a scratch copy of the repository: confirm each and file it under seeded/.

usage: seed.py SPEC.py [id ...]    SPEC.py defines BUGS = [dict(id, property, edits, demo, needs, breaks)]
The demonstration is the body of a Rust program; it must run to the end with the original code.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
# Run main.rs beside this file against the crate in the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
postscript = { path = "$repo" }
END
cd "$t"
export CARGO_TARGET_DIR=$t/target
cargo build -q --offline
timeout 60 "$t/target/debug/demo"
'''

HEAD = '''#![allow(unused_imports, dead_code)]
use postscript::compact1::*;
use postscript::tape::Read as _;
use postscript::type2::Program;
use postscript::value::Read as _;
use postscript::walue::Read as _;
use std::io::{Cursor, Seek, SeekFrom};

'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        t = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        try:
            one(b, os.path.join(t, "repo"), t)
        finally:
            shutil.rmtree(t)


def one(b, repo, t):
    sh("cp", "-a", "/repo", repo, check=True)
    d = os.path.join(t, "d")
    os.makedirs(d)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    demo = b["demo"] if "fn main" in b["demo"] else "fn main() {\n%s}\n" % b["demo"]
    open(os.path.join(d, "main.rs"), "w").write(HEAD + demo.lstrip("\n"))
    r = sh("bash", os.path.join(d, "demo.sh"), cwd=repo)
    if r.returncode:
        print(b["id"], "DEMO FAILS on the original:", (r.stdout + r.stderr)[:700])
        return
    for f, old, new in b["edits"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "edit matches", s.count(old), "times:", old[:80])
            return
        open(p, "w").write(s.replace(old, new))
    diff = sh("git", "diff", cwd=repo).stdout
    r = sh("cargo", "test", "--offline", "--no-fail-fast", cwd=repo)
    okay = [l.split()[1] for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("ok")]
    stable = [x.split("::", 1)[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    bad = [x for x in stable if x not in okay]
    if bad:
        print(b["id"], "TESTS FAIL", bad, r.stderr[-800:] if len(bad) == len(stable) else "")
        return
    r = sh("bash", os.path.join(d, "demo.sh"), cwd=repo)
    if not r.returncode:
        print(b["id"], "DEMO PASSES with the bug")
        return
    out = os.path.join(VERIF, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    for f in ("demo.sh", "main.rs"):
        shutil.copy(os.path.join(d, f), out)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    env = dict(os.environ, VERIF_REPO=repo)
    import time
    t0 = time.time()
    r = subprocess.run(["python3", "check.py", b["property"], "quick"], cwd=VERIF, env=env, capture_output=True, text=True)
    caught = r.returncode == 1 and "VIOLATION property=%s" % b["property"] in r.stdout
    print(b["id"], "%.0fs" % (time.time() - t0), "caught" if caught else "MISSED (%d)" % r.returncode, r.stdout.strip().split("\n")[0][:200], flush=True)


main()
