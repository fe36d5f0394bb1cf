#!/usr/bin/env python3
"""Development tool: writes seeded/<id>/ from a definition and confirms it (never used by a check).

  seed.py make DEF.py [id..]   writes seeded/<id> for the bugs in DEF.py
  seed.py confirm id..         build, stable tests and demo, with and without the patch (in /repo, undone)
  seed.py detect id.. [--prop Cxx]  runs the check of the bug's property with the patch in /repo
"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
DEMO = """#!/bin/bash
# exit 0 if the behaviour is right, 1 if it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -r "$t"' EXIT
cp -r "$here/demo" "$t/demo" && cd "$t/demo" || exit 2
CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true cargo build --offline -q || exit 2
timeout 120 "$t/target/debug/demo"
"""
CARGO = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
omnipaxos = { path = "/repo/omnipaxos", default-features = false, features = ["serde"%s] }
omnipaxos_storage = { path = "/repo/omnipaxos_storage"%s }
serde = { version = "1.0", features = ["derive"] }
%s"""

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def make(b):
    d = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "demo", "src"))
    assert sh("git -C /repo status --porcelain").stdout == ""
    try:
        for f, old, new in b["edits"]:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO if not b.get("rocks") else DEMO.replace(
        "CARGO_TARGET_DIR=", 'L=$(ls -d /opt/vp/ws/target/debug/build/librocksdb-sys-*/out 2>/dev/null | head -1)\n[ -n "$L" ] && export ROCKSDB_LIB_DIR=$L SNAPPY_LIB_DIR=$L ROCKSDB_STATIC=1 SNAPPY_STATIC=1\nCARGO_TARGET_DIR='))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo", "Cargo.toml"), "w").write(CARGO % (
        "".join(', "%s"' % x for x in b.get("features", [])),
        ', features = ["persistent_storage"]' if b.get("rocks") else "", b.get("deps", "")))
    main = b["main"]
    if "mod mini;" in main:
        mini = open(os.path.join(HERE, "demo", "mini.rs")).read()
        for a, z in b.get("mini", []):
            assert mini.count(a) == 1
            mini = mini.replace(a, z)
        open(os.path.join(d, "demo", "src", "mini.rs"), "w").write(mini)
    open(os.path.join(d, "demo", "src", "main.rs"), "w").write(main)
    sh("cp %s/harness/Cargo.lock %s/demo/Cargo.lock" % (V, d))
    r = sh("cargo generate-lockfile --offline" if b.get("deps") or b.get("rocks") or b.get("features") else "true", cwd=d + "/demo")
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("made", b["id"])

def apply(i):
    assert sh("git -C /repo status --porcelain").stdout == ""
    r = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, i))
    assert r.returncode == 0, r.stderr

def undo():
    sh("git -C /repo checkout -- .")

def confirm(i):
    demo = "bash %s/seeded/%s/demo.sh" % (V, i)
    r0 = sh(demo, cwd="/repo")
    apply(i)
    try:
        r1 = sh(demo, cwd="/repo")
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        res = json.load(open("/tmp/seedtest.json"))
        passed = set(res.get("passed", []))
        miss = base - passed
    finally:
        undo()
    ok = r0.returncode == 0 and r1.returncode == 1 and b.returncode == 0 and not miss
    print(i, "CONFIRMED" if ok else "NOT CONFIRMED", "demo %d -> %d" % (r0.returncode, r1.returncode), "build", b.returncode, "missing", sorted(miss))
    if not ok:
        print(r0.stdout[-800:], r0.stderr[-1500:], "----", r1.stdout[-800:], r1.stderr[-800:])
    return ok

def detect(i, prop=None):
    prop = prop or json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    apply(i)
    t = time.time()
    try:
        r = sh("python3 %s/check.py %s" % (V, prop), cwd=V)
    finally:
        undo()
    line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-28s %s rc=%d %4.0f s %s" % (i, prop, r.returncode, time.time() - t, line[0] if line else r.stdout[-400:]), flush=True)
    return r.returncode == 1 and bool(line)

if __name__ == "__main__":
    a = sys.argv[1]
    if a == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        for b in ns["BUGS"]:
            if len(sys.argv) == 3 or b["id"] in sys.argv[3:]:
                make(b)
    else:
        ids = [x for x in sys.argv[2:] if not x.startswith("--") and not x.startswith("C")]
        prop = next((x for x in sys.argv[2:] if x.startswith("C") and x[1:].isdigit()), None)
        for i in ids or sorted(os.listdir(V + "/seeded")):
            confirm(i) if a == "confirm" else detect(i, prop)
