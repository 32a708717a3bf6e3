#!/usr/bin/env python3
"""Keeps a planted bug: plant.py ID < spec, where spec is JSON lines-free python.

The spec is a python file that sets prop, needs, breaks, edits = [(file, old, new)],
demo (source of main.rs) and optionally features / script. The edits are applied
in a scratch copy of the repository, the stable tests and the demonstration are run
with and without them, and /verif/seeded/<id> is written when everything fits.
"""
import json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("PLANT_REPO", "/tmp/plant/repo")
TARGET = SCRATCH + "/target"
DEMO_SH = r'''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat >"$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
@DEPS@
END
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cd "$tmp" || exit 1
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER
cargo build --offline -q || { rm -f Cargo.lock; cargo build --offline -q; } || exit 1
timeout 200 "$tmp/target/debug/demo"
'''


def sh(cmd, cwd=SCRATCH, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def tests():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1")
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", env=env)
    return r.returncode, r.stdout


def main():
    bid = sys.argv[1]
    spec = {}
    exec(sys.stdin.read(), spec)
    d = f"{VERIF}/seeded/{bid}"
    new = d + ".new"
    shutil.rmtree(new, ignore_errors=True)
    os.makedirs(new)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    deps = spec.get("deps") or 'laps = { path = "$repo", features = ["macros"] }'
    open(f"{new}/demo.sh", "w").write(spec.get("script") or DEMO_SH.replace("@DEPS@", deps))
    os.chmod(f"{new}/demo.sh", 0o755)
    if "demo" in spec:
        open(f"{new}/demo.rs", "w").write(spec["demo"].lstrip())
    json.dump(dict(property=spec["prop"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(f"{new}/meta.json", "w"), indent=1)
    r = sh(f"bash {new}/demo.sh")
    if r.returncode != 0:
        print("DEMO FAILS ON CLEAN TREE\n", r.stdout[-3000:])
        return 1
    for f, old, rep in spec["edits"]:
        p = f"{SCRATCH}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(f"EDIT: {s.count(old)} matches in {f}:\n{old}")
            return 1
        open(p, "w").write(s.replace(old, rep))
    open(f"{new}/patch.diff", "w").write(sh("git diff").stdout)
    # changed lines must be original ones
    base = sh("git rev-list --max-parents=0 HEAD").stdout.strip()
    for line in sh("git diff -U0").stdout.splitlines():
        if line.startswith("-") and not line.startswith("---"):
            t = line[1:]
            if t.strip() and sh(f"git grep -qF -e {json.dumps(t)} {base}").returncode and subprocess.run(["git", "grep", "-qF", "-e", t, base], cwd=SCRATCH).returncode:
                print("NOTE: not an original line:", t)
    r = sh(f"bash {new}/demo.sh")
    if r.returncode == 0:
        print("DEMO PASSES WITH THE BUG\n", r.stdout[-3000:])
        return 1
    print("demo with bug:", r.returncode, r.stdout[-600:])
    rc, out = tests()
    if rc != 0:
        print("TESTS FAIL\n", "\n".join(l for l in out.splitlines() if "FAILED" in l or "failed" in l or "error" in l)[-3000:])
        return 1
    sh("git checkout -q -- .")
    shutil.rmtree(d, ignore_errors=True)
    os.rename(new, d)
    print("KEPT", bid)
    return 0


sys.exit(main())
