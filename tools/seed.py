#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: makes /verif/seeded/<id>/ from a specification, confirms it and runs the check.

SPEC.py defines BUGS, a list of (id, property, needs, breaks, [(file, old, new)...], demo main body[, (features of the demonstration, flags of cargo)]).
The change is applied to /repo for the time of the tests and taken back afterwards."""
import json, os, re, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = '''#!/bin/bash
# builds main.rs (beside this file) against the crate in the current directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh 2>/dev/null
unset CARGO_TARGET_DIR
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
icalendar = { path = "$repo", @FEATURES@ }
chrono = "*"
chrono-tz = "*"
serde_json = "*"
[workspace]
T
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run @FLAGS@--offline --quiet 2>&1
'''
HEAD = "#![allow(unused_imports)]\nuse chrono::*;\nuse icalendar::{parser as ip, *};\n"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def clean():
    sh(f"git -C {R} checkout -- .")
def demo(d):
    r = sh(f"bash {d}/demo.sh", cwd=R)
    return r.returncode, (r.stdout + r.stderr)[-600:]
def tests():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode:
        return "does not build: " + b.stderr[-1500:]
    sh("bash /opt/vp/test.sh /tmp/seed.t.json")
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = set(json.load(open("/tmp/seed.t.json"))["passed"])
    return "tests fail: " + ", ".join(sorted(want - got)) if want - got else ""
def check(p, tier="quick"):
    r = sh(f"{V}/check.sh {p} {tier}")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    what = [l for l in r.stdout.splitlines() if l.startswith("---")]
    return r.returncode, (v or [""])[0], (what or [r.stderr[-300:] if r.returncode == 2 else ""])[0]
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    assert not sh(f"git -C {R} status --porcelain").stdout
    base = sh(f"git -C {R} rev-list --max-parents=0 HEAD").stdout.strip()
    for (i, prop, needs, breaks, edits, body, *how) in bugs:
        # (the configuration the demonstration is built in)
        feats, flags = how[0] if how else ('features = ["parser", "serde", "serde_json", "chrono-tz"]', "")
        if only and i not in only:
            continue
        d = f"{V}/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        try:
            bad = ""
            for f, old, new in edits:
                s = open(f"{R}/{f}").read()
                if s.count(old) != 1:
                    bad = f"{s.count(old)} matches in {f}: {old[:60]}"
                    break
                open(f"{R}/{f}", "w").write(s.replace(old, new))
            if bad:
                print(i, "BAD:", bad); continue
            diff = sh(f"git -C {R} diff -U3").stdout
            # deleted lines have to be the original's
            mine = []
            for f, _, _ in edits:
                blame = sh(f"git -C {R} blame -s HEAD -- {f}").stdout.splitlines()
                cur = None
                for l in sh(f"git -C {R} diff -U0 -- {f}").stdout.splitlines():
                    m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
                    if m:
                        a, n = int(m[1]), int(m[2] or 1)
                        mine += [blame[k] for k in range(a - 1, a - 1 + n) if not blame[k].startswith("^")]
            open(f"{d}/patch.diff", "w").write(diff)
            open(f"{d}/main.rs", "w").write(body if "fn main" in body else HEAD + "fn main() {\n" + body + "\n}\n")
            open(f"{d}/demo.sh", "w").write(DEMO.replace("@FEATURES@", feats).replace("@FLAGS@", flags))
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
            t = tests()
            if t:
                print(i, "BAD:", t); continue
            rc1, o1 = demo(d)
            c = check(prop)
            clean()
            rc0, o0 = demo(d)
            ok = rc0 == 0 and rc1 != 0
            print(i, prop, "CAUGHT" if c[0] == 1 and c[1].startswith(f"VIOLATION property={prop} ") else f"MISSED rc={c[0]}", c[2][:160],
                  "" if ok else f"DEMO BAD clean={rc0} patched={rc1} {o0 if rc0 else o1}", f"NOT ORIGINAL: {mine}" if mine else "")
        finally:
            clean()
        sys.stdout.flush()
main()
