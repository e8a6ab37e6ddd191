#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy: plant.py ID...

The patch applies, builds and passes the stable tests; the demonstration
succeeds without and fails with it.  Then, with --catch, applies the patch to
/repo, runs the check of its property (or those named by --with C01,C02), and
takes the patch out again.  No check runs this."""
import json, os, re, subprocess, sys, tempfile, shutil, time
SEEDED = "/verif/seeded"

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)

def tests(repo, target):
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", repo,
           env=dict(os.environ, CARGO_TARGET_DIR=target))
    ok = set(re.findall(r"(?m)^test (.+?)(?: - should panic)? \.\.\. ok", r.stdout))
    ok = {re.sub(r" \(line \d+\)", "", x) for x in ok}
    return ok, set(re.findall(r"(?m)^test (.+?) \.\.\. FAILED", r.stdout)), r

def confirm(b, work):
    d = os.path.join(SEEDED, b)
    meta = json.load(open(d + "/meta.json"))
    repo, target = work + "/repo", work + "/target"
    if not os.path.exists(repo):
        sh("git clone -q /repo %s && cp /repo/Cargo.lock %s/" % (repo, repo), "/tmp")
    sh("git checkout -q -- . && git clean -fdq -e Cargo.lock", repo)
    if not hasattr(confirm, "base"):
        confirm.base = tests(repo, target)[0]
        assert len(confirm.base) >= 80, len(confirm.base)
    tmp = work + "/demo"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    demo = "bash %s/demo.sh" % tmp
    r = sh(demo, repo)
    if r.returncode:
        return "demo fails on the unchanged tree\n" + (r.stdout + r.stderr)[-400:]
    r = sh("git apply %s/patch.diff" % d, repo)
    if r.returncode:
        return "patch does not apply " + r.stderr
    ok, bad, r = tests(repo, target)
    if confirm.base - ok:
        return "tests: %s\n%s" % (sorted(confirm.base - ok)[:5], r.stderr[-800:] if not ok else "")
    r = sh("timeout 280 " + demo, repo)
    if r.returncode == 0:
        return "demo does not see the change"
    msg = [l for l in (r.stdout + r.stderr).splitlines() if l.strip() and "RUST_BACKTRACE" not in l]
    sh("git checkout -q -- .", repo)
    return "confirmed; " + " ".join(msg[-2:])[:160]

def catch(b, props):
    d = os.path.join(SEEDED, b)
    p = props or [json.load(open(d + "/meta.json"))["property"]]
    assert sh("git status --porcelain", "/repo").stdout == ""
    out = []
    assert sh("git apply %s/patch.diff" % d, "/repo").returncode == 0
    try:
        for x in p:
            t = time.time()
            r = sh("python3 run.py check " + x, "/verif")
            v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "  call"))]
            out.append("%s exit %d %.0fs %s" % (x, r.returncode, time.time() - t, " | ".join(l[:170] for l in v[1:2]) or r.stderr[-300:]))
    finally:
        sh("git checkout -q -- .", "/repo")
    return "; ".join(out)

def main():
    a = sys.argv[1:]
    c = "--catch" in a
    only = "--only-catch" in a
    props = None
    for x in a:
        if x.startswith("--with="):
            props = x[7:].split(",")
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(SEEDED))
    work = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        for b in ids:
            s = "" if only else confirm(b, work)
            print(b, s, flush=True)
            if (c or only) and (only or s.startswith("confirmed")):
                print("    ", catch(b, props), flush=True)
    finally:
        shutil.rmtree(work)
main()
