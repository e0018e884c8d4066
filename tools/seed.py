#!/usr/bin/env python3
"""seed.py ID [--nocheck]: confirm one planted bug of /verif/seeded against
/repo (applied, tried, undone). seed.py new ID crates... : write demo.sh."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATHS = {"oca-rs": "oca", "oca-bundle-semantics": "semantics/oca-bundle", "oca-file-semantics": "semantics/oca-file", "oca-ast-semantics": "semantics/oca-ast",
         "oca-dag-semantics": "semantics/oca-dag", "oca-file": "oca-file", "transformation-file": "transformation/transformation-file", "oca-file-transformation": "transformation/oca-file", "transformation-ast": "transformation/ast"}
DEMO = '''#!/bin/bash
# builds main.rs against the crates of the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
serde_json = { version = "1", features = ["preserve_order"] }
@DEPS@
T
export HOME=/root CARGO_HOME=/root/.cargo PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$repo/target" CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
unset RUSTFLAGS RUST_LOG
cd "$t" && cargo build --offline -q 2>&1 | grep -v ^warning | tail -20
exe="$repo/target/debug/demo"
[ -x "$exe" ] || exit 3
mv "$exe" "$t/demo.exe" && timeout 60 "$t/demo.exe"
'''


def sh(c, **kw):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return p.returncode, p.stdout


def new(i, crates):
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    deps = "\n".join('%s = { path = "$repo/%s" }' % (c, PATHS[c]) for c in crates)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@DEPS@", deps))


def confirm(i, check=True):
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    pid = m["property"]
    assert sh("git -C /repo status --porcelain")[1].strip() == "", "dirty /repo"
    r = {}
    sh("bash /opt/vp/build.sh")
    rc, o = sh("bash %s/demo.sh" % d, cwd="/repo")
    r["clean"] = rc
    if rc:
        print(o[-1500:])
    rc, o = sh("git -C /repo apply %s/patch.diff" % d)
    if rc:
        print("patch does not apply", o)
        return
    try:
        rc, o = sh("bash /opt/vp/build.sh")
        r["build"] = rc
        if rc:
            print(o[-2500:])
            return
        rc, o = sh("bash /opt/vp/test.sh /tmp/seed.json")
        res = json.load(open("/tmp/seed.json"))
        r["tests"] = (len(res["passed"]), res["failed"])
        rc, o = sh("bash %s/demo.sh" % d, cwd="/repo")
        r["demo"] = rc
        print(o.strip()[-300:])
        if check:
            for p in [pid] if check is True else check:
                t = time.time()
                rc, o = sh("python3 tools/check.py %s quick" % p, cwd=V)
                l = [x for x in o.split("\n") if x.startswith(("VIOLATION", "violated", "UNCONF", "VACUOUS", "INCOMP"))]
                r["check " + p] = (rc, round(time.time() - t), l[:2])
    finally:
        sh("git -C /repo checkout -- .")
    ok = r["clean"] == 0 and r.get("demo") and not r["tests"][1]
    print(i, pid, "COUNTS" if ok else "NOT A SEED", r)


if sys.argv[1] == "new":
    new(sys.argv[2], sys.argv[3:])
else:
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    for i in ids:
        confirm(i, "--nocheck" not in sys.argv)
