#!/usr/bin/env python3
"""mutate.py gen OUT.json | run LIST.json WORKERS OUT.jsonl [BASEDIR]
Mutation runs used while building: every mutant that compiles and passes the repository's stable tests is
given to every check; the ones no check reports are looked at by hand (equivalent, outside every statement, or a gap).
Everything happens in scratch copies under BASEDIR (default /tmp/m)."""
import json, os, re, subprocess, sys, threading, queue, time, random
R = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def code_lines(path):
    src = open(path).read().split("\n")
    skip, depth = False, 0
    out = []
    pending = False
    for n, l in enumerate(src):
        s = l.strip()
        if not skip and (s.startswith("#[cfg(test)]") or s == "#[test]"):
            pending = True
            continue
        if pending and "{" not in l and s.endswith(";"):
            pending = False
            continue
        if pending and "{" in l:
            skip, depth, pending = True, 0, False
        if skip:
            depth += l.count("{") - l.count("}")
            if depth <= 0:
                skip = False
            continue
        if s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub use") or not s or s.startswith("mod "):
            continue
        out.append((n, l))
    return src, out

def variants(l):
    body = l.split(" //")[0]
    s = body.strip()
    got = []
    def sub(rx, rep, tag):
        for m in re.finditer(rx, body):
            r = rep(m) if callable(rep) else m.expand(rep)
            for r in (r if isinstance(r, list) else [r]):
                if r is not None and r != m.group(0):
                    got.append((tag, body[:m.start()] + r + body[m.end():]))
    sub(r" == ", " != ", "eq"); sub(r" != ", " == ", "ne")
    sub(r" < ", " <= ", "lt"); sub(r" <= ", " < ", "le"); sub(r" > ", " >= ", "gt"); sub(r" >= ", " > ", "ge")
    sub(r" && ", " || ", "and"); sub(r" \|\| ", " && ", "or")
    sub(r" \+ ", " - ", "plus"); sub(r" - ", " + ", "minus"); sub(r" \+= ", " -= ", "pluseq")
    sub(r"\btrue\b", "false", "true"); sub(r"\bfalse\b", "true", "false")
    sub(r"(?<![\w\"'.])(\d+)(?![\w\"'.])", lambda m: [str(int(m[1]) + 1)] + ([str(int(m[1]) - 1)] if int(m[1]) else []), "int")
    sub(r"\"((?:[^\"\\]|\\.)*)\"", lambda m: ["\"" + m[1] + "X\"", "\"" + (m[1].lower() if m[1].lower() != m[1] else m[1].upper()) + "\""], "str")
    sub(r"'([^'\\]|\\.)'", lambda m: "'~'", "chr")
    sub(r"\bif (?!let)(.+?) \{$", r"if true || \1 {", "iftrue"); sub(r"\bif (?!let)(.+?) \{$", r"if false && \1 {", "iffalse")
    sub(r"(?<=[\s(])!(?=[a-z(])", "", "not")
    sub(r"\.iter\(\)", [".iter().skip(1)", ".iter().take(1)", ".iter().rev()"] and (lambda m: [".iter().skip(1)", ".iter().take(2)", ".iter().rev()"]), "iter")
    sub(r"\.into_iter\(\)", lambda m: [".into_iter().skip(1)", ".into_iter().take(2)"], "intoiter")
    sub(r"\.values\(\)", ".values().skip(1)", "values")
    for a, b in [("first", "last"), ("last", "first"), ("min", "max"), ("max", "min"), ("find", "rfind"), ("rfind", "find"), ("split_once", "rsplit_once"), ("rsplit_once", "split_once"), ("push_str", "clone_from_"), ("eq_ignore_ascii_case", "eq"), ("is_some", "is_none"), ("is_none", "is_some"), ("is_ok", "is_err"), ("is_err", "is_ok"), ("any", "all"), ("all", "any"), ("starts_with", "ends_with"), ("ends_with", "starts_with"), ("starts_with", "contains"), ("strip_prefix", "strip_suffix"), ("trim", "trim_start"), ("trim", "trim_end"), ("trim_end", "trim"), ("trim_start", "trim"), ("is_empty", "is_ascii"), ("to_ascii_uppercase", "to_ascii_lowercase"), ("to_uppercase", "to_lowercase"), ("append_property", "append_multi_property"), ("append_multi_property", "append_property"), ("is_alphanumeric", "is_alphabetic"), ("checked_add", "checked_sub")]:
        sub(r"\." + a + r"\(", "." + b + "(", a)
    for a, b in [("many0", "many1"), ("many1", "many0"), ("tag_no_case", "tag"), ("take_while1", "take_while"), ("take_while", "take_while1"), ("alpha1", "alpha0"), ("space0", "space1"), ("digit1", "digit0"), ("multispace0", "space0"), ("line_ending", "newline"), ("preceded", "terminated"), ("cut", "")]:
        sub(r"\b" + a + r"\b(?=\()" if a in ("many0", "many1", "tag_no_case", "take_while1", "take_while", "preceded", "cut") else r"\b" + a + r"\b", b, a)
    sub(r"\bSome\(([^()]*)\)$", "None", "none")
    sub(r"\.trim\(\)|\.trim_end\(\)|\.trim_start\(\)|\.rev\(\)|\.to_ascii_uppercase\(\)|\.to_uppercase\(\)", "", "drop")
    sub(r"\.filter\([^()]*\)|\.filter\(\|[^|]*\|[^()]*(?:\([^()]*\))*[^()]*\)", "", "nofilter")
    if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "type ", "const ", "}", ")", ".", "impl", "break", "continue", "static")) and body.count("(") == body.count(")"):
        got.append(("del", ""))
    if re.match(r".*=> .*,$", s) and body.count("(") == body.count(")") and body.count("{") == body.count("}"):
        got.append(("delarm", ""))
    if s.startswith("return") or s in ("break;", "continue;"):
        got.append(("delret", ""))
    if re.match(r"^\.\w+\(.*\)$", s) or re.match(r"^\.\w+\(.*\)\?$", s):
        got.append(("delcall", ""))
    seen, out = set(), []
    for t, r in got:
        if r != body and r not in seen:
            seen.add(r); out.append((t, r))
    return out

def gen(out):
    ms = []
    for f in subprocess.check_output(["git", "-C", R, "ls-files", "src"], text=True).split():
        if f.endswith("tests.rs") or f == "src/assert.rs":
            continue
        src, code = code_lines(f"{R}/{f}")
        for n, l in code:
            for t, r in variants(l):
                ms.append({"file": f, "line": n, "tag": t, "old": l, "new": r})
    for i, m in enumerate(ms):
        m["id"] = i
    json.dump(ms, open(out, "w"), indent=0)
    print(len(ms))

def sh(cmd, timeout, env=None):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, env=env)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ""

def worker(w, base, q, outf, lock, checks):
    d = f"{base}/{w}"
    repo, ver = f"{d}/repo", f"{d}/verif"
    if not os.path.isdir(repo):
        os.makedirs(d)
        subprocess.check_call(f"cp -a {R} {repo}; mkdir {ver}; cp -a {V}/harness {V}/check.sh {V}/known_findings.txt {V}/properties.jsonl {V}/MANIFEST.json {ver}/", shell=True)
        subprocess.check_call(f"sed -i 's#path = \"/repo\"#path = \"{repo}\"#' {ver}/harness/Cargo.toml; sed -i 's/^incremental = false/incremental = true/; s/^opt-level = 2/opt-level = 1/' {ver}/harness/Cargo.toml", shell=True)
    env = dict(os.environ, MC_REPO=repo, MC_TARGET=f"{ver}/target")
    env.pop("CARGO_TARGET_DIR", None)
    base_ok = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    tenv = f". /opt/vp/env.sh; cd {repo}; export CARGO_TARGET_DIR={repo}/target; "
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        t0 = time.time()
        if "edits" not in m:
            p = f"{repo}/{m['file']}"
            orig = open(p).read()
        res = dict(m)
        files = {}
        try:
            if "edits" in m:
                for f, old, new in m["edits"]:
                    s = open(f"{repo}/{f}").read()
                    files.setdefault(f, s)
                    if s.count(old) != 1:
                        raise Exception(f"{s.count(old)} matches of {old[:50]!r}")
                    open(f"{repo}/{f}", "w").write(s.replace(old, new))
            else:
                lines = orig.split("\n")
                assert lines[m["line"]] == m["old"]
                lines[m["line"]] = m["new"]
                open(p, "w").write("\n".join(lines))
            rc, o = sh(tenv + "cargo check --offline --all-features 2>&1", 120)
            if rc:
                res["r"] = "nobuild"
                res["o"] = o[-1500:] if "edits" in m else ""
                continue
            # unit and integration tests first, the documentation tests only for survivors
            rc, o = sh(tenv + "cargo test --workspace --all-features --no-fail-fast --offline --lib --bins --tests -- --test-threads 8 2>&1", 120)
            if rc:
                res["r"] = "tests"
                res["o"] = " ".join(re.findall(r"^test (\S+) .*FAILED", o, re.M))
                continue
            rc, o = sh(tenv + "cargo test --workspace --all-features --no-fail-fast --offline --doc 2>&1", 200)
            if rc:
                res["r"] = "tests"
                continue
            res["r"] = "SURVIVED"
            for c in ([m["property"]] if m.get("property", "ALL") != "ALL" else checks):
                rc, o = sh(f"taskset -c {2 * w % 8},{(2 * w + 1) % 8} {ver}/check.sh {c} quick", 400, env)
                if rc == 1 and f"VIOLATION property={c} " in o:
                    res["r"] = "caught"; res["by"] = c
                    break
                if rc != 0:
                    res["r"] = f"rc{rc}"; res["by"] = c; res["o"] = o[-400:]
                    break
        except Exception as e:
            res["r"] = "error " + repr(e)
        finally:
            if "edits" in m:
                for f, s in files.items():
                    open(f"{repo}/{f}", "w").write(s)
            else:
                open(p, "w").write(orig)
            res["t"] = round(time.time() - t0, 1)
            with lock:
                open(outf, "a").write(json.dumps(res) + "\n")
                if "edits" in m:
                    good = res["r"] == "caught" and res["by"] == m["property"]
                    print("ok " if good else "***", m["id"], m["property"], res["r"], res.get("by", ""), "" if good else res.get("o", ""), flush=True)

def run(lst, n, outf, base):
    ms = json.load(open(lst))
    done = set()
    if os.path.exists(outf):
        done = {json.loads(l)["id"] for l in open(outf)}
    ms = [m for m in ms if m["id"] not in done]
    random.Random(5).shuffle(ms)
    q = queue.Queue()
    for m in ms: q.put(m)
    lock = threading.Lock()
    checks = "C06 C03 C15 C21 C09 C02 C11 C05 C20 C01 C22 C04 C13 C14 C19 C17 C10 C24 C16 C12 C08 C23 C07 C18 C26 C28 C25 C27".split()
    ts = [threading.Thread(target=worker, args=(i, base, q, outf, lock, checks)) for i in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]

def tried(spec, n, only):
    """try SPEC.py WORKERS [ID...]: hand-made changes (see seed.py), the check of their property first"""
    import runpy
    bugs = [b for b in runpy.run_path(spec)["BUGS"] if not only or b[0] in only]
    outf = "/tmp/try.out"
    if os.path.exists(outf): os.remove(outf)
    lst = "/tmp/try.lst"
    json.dump([{"id": b[0], "property": b[1], "edits": b[4] if len(b) > 4 else b[2]} for b in bugs], open(lst, "w"))
    for w in range(n):
        if os.path.isdir(f"/tmp/m/{w}"):
            subprocess.check_call(f"rsync -a --delete {V}/harness/src/ /tmp/m/{w}/verif/harness/src/; cp {V}/known_findings.txt {V}/properties.jsonl /tmp/m/{w}/verif/; rsync -a --delete {R}/src/ /tmp/m/{w}/repo/src/", shell=True)
    run(lst, n, outf, "/tmp/m")

if sys.argv[1] == "try": tried(sys.argv[2], int(sys.argv[3]), sys.argv[4:])
elif sys.argv[1] == "gen": gen(sys.argv[2])
else: run(sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5] if len(sys.argv) > 5 else "/tmp/m")
