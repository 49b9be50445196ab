#!/usr/bin/env python3
"""Plants one bug: mkseed.py SPEC.py  (SPEC defines ID, PROPERTY, FILE, OLD, NEW, DEMO, NEEDS, BREAKS
or EDITS = [(file, old, new)]).  Confirms it in a scratch copy and writes /verif/seeded/<ID>/."""
import os, subprocess, sys, json, shutil, re
env = dict(os.environ, RUSTUP_TOOLCHAIN="1.85.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
SW = "/tmp/sw"
DEMO_SH = '''#!/bin/bash
# cwd: the repository. Builds demo.rs against it in a scratch folder and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
[workspace]
EOF
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target"
cd "$W" && cargo run -q --offline
'''
def sh(cmd, cwd=SW, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
def main(spec):
    s = {}
    exec(open(spec).read(), s)
    if not os.path.isdir(SW):
        subprocess.run(["cp", "-a", "/repo", SW], check=True)
    head = sh("git rev-parse HEAD", "/repo").stdout.strip()
    sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard " + head)
    d = "/verif/seeded/" + s["ID"]
    tmp = "/tmp/seed-" + s["ID"]
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + "/demo.rs", "w").write(s["DEMO"])
    deps = s.get("DEPS", 'cavalier_contours = { path = "$R/cavalier_contours" }')
    open(tmp + "/demo.sh", "w").write(DEMO_SH % deps)
    os.chmod(tmp + "/demo.sh", 0o755)
    r = sh(tmp + "/demo.sh")
    if r.returncode != 0:
        print("FAIL: demo fails on the unchanged tree", r.stdout[-1500:], r.stderr[-2500:]); return 1
    for f, o, n in s.get("EDITS") or [(s["FILE"], s["OLD"], s["NEW"])]:
        t = open(f"{SW}/{f}").read()
        if t.count(o) != 1:
            print("FAIL: old text found", t.count(o), "times:", o); return 1
        open(f"{SW}/{f}", "w").write(t.replace(o, n))
    patch = sh("git diff").stdout
    r = sh("cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 2>&1")
    bad = re.findall(r"^test (.*) \.\.\. FAILED", r.stdout, re.M)
    if r.returncode != 0:
        print("FAIL: tests:", bad[:10], r.stdout[-1500:] if not bad else ""); sh("git checkout -q -- ."); return 1
    r = sh(tmp + "/demo.sh")
    sh("git checkout -q -- .")
    if r.returncode == 0:
        print("FAIL: demo passes with the change"); return 1
    os.makedirs(d, exist_ok=True)
    for f in ("demo.rs", "demo.sh"):
        shutil.copy(f"{tmp}/{f}", d)
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(tmp)
    print("OK", s["ID"], r.stdout.strip()[-200:], r.stderr.strip().splitlines()[-3:][:2])
    return 0
sys.exit(main(sys.argv[1]))
