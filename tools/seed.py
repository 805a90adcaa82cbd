#!/usr/bin/env python3
"""Development aid: make and confirm planted bugs.

seed.py DEFS.py [ID...]: DEFS holds BUGS, a list of dict(id, property, edits=[(file, old, new)], needs, breaks, demo).
Writes /verif/seeded/<id>/ when the change compiles, passes the stable tests, and the demo tells the two apart.
All in /tmp/seedrepo.
"""
import json, os, shutil, subprocess, sys
W = "/tmp/seedrepo"
S = "/verif/seeded"
DEMO = '''#!/bin/bash
# Runs demo.rs against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 3
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
magog = { path = "$repo" }
[workspace]
[profile.dev]
debug = false
T
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cd "$d" && timeout 250 cargo run --offline --quiet
'''
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")

def sh(cmd, cwd=W, t=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"

ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
if not os.path.exists(W):
    subprocess.run(["cp", "-a", "/repo", W], check=True)
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []))
for b in ns["BUGS"]:
    if want and b["id"] not in want:
        continue
    sh("git checkout -q -- . && git clean -fdq")
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT", f, s.count(old), repr(old[:60]))
            ok = False
            break
        open(p, "w").write(s.replace(old, new))
    if not ok:
        continue
    _, diff = sh("git diff")
    d = os.path.join("/tmp/seedout", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    if b.get("counted"):
        t = open("/verif/harness/src/counted.rs").read()
        open(d + "/counted.rs", "w").write(t[:t.index("impl crate::num::Num")].rstrip() + "\n")
        t = open(d + "/demo.sh").read().replace(' || exit 3\n[ -f', ' && cp "$here/counted.rs" "$d/src/" || exit 3\n[ -f').replace('[workspace]', 'num-traits = "0.2"\n[workspace]')
        open(d + "/demo.sh", "w").write(t)
    if b.get("miri"):
        t = open(d + "/demo.sh").read().replace("RUSTUP_TOOLCHAIN=stable", "RUSTUP_TOOLCHAIN=nightly MIRIFLAGS=-Zmiri-disable-isolation").replace("cargo run", "cargo miri run")
        open(d + "/demo.sh", "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(b["demo"])
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    c, o = sh("rm -rf target/debug/.fingerprint/magog-*; cargo test --workspace --no-fail-fast --offline -- --test-threads 4", t=200)
    if c:
        print(b["id"], "TESTS FAIL", "compile" if "could not compile" in o else [l for l in o.splitlines() if l.endswith("FAILED") or "panicked" in l][:4])
        if "could not compile" in o:
            print("\n".join(o.splitlines()[:30]))
        continue
    c1, o1 = sh("bash %s/demo.sh" % d)
    sh("git checkout -q -- .")
    c0, o0 = sh("bash %s/demo.sh" % d)
    print(b["id"], "clean", c0, "bug", c1, "" if c0 == 0 and c1 not in (0, 3) else (o0[-800:] + "|" + o1[-800:]), flush=True)
    if c0 == 0 and c1 not in (0, 3, 124):
        shutil.rmtree(os.path.join(S, b["id"]), ignore_errors=True)
        shutil.copytree(d, os.path.join(S, b["id"]))
