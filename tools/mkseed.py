#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes planted bugs from a list of specs into the seeded folder (patch from a scratch copy, demo.sh, meta.json).

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, main, deps="")].
Then tools/seed.sh ID confirms each one."""
import json, os, runpy, subprocess, sys
S = "/tmp/seedrepo"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Run with cwd = the repository. Exits 0 when the property holds for what main.rs does.
HERE=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=%(toolchain)s
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= CONST_RANDOM_SEED=frozen-collections
export CARGO_TARGET_DIR=$T/target
unset RUSTFLAGS LD_LIBRARY_PATH
mkdir -p "$T/src"
cp "$HERE/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
frozen-collections = { path = "$R/frozen-collections"%(fcextra)s }
%(deps)s
[profile.dev]
debug = false
EOT
cd "$T" && timeout 280 cargo %(cmd)s
'''


def main():
    only = sys.argv[2:]
    for b in runpy.run_path(sys.argv[1])["BUGS"]:
        if only and b["id"] not in only:
            continue
        subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
        subprocess.run("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (S, S), shell=True, check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(S, f)
            t = open(p).read()
            n = t.count(old)
            assert n == b.get("count", 1) or n >= 1 and b.get("first"), (b["id"], f, n)
            t = t.replace(old, new, 1) if b.get("first") else t.replace(old, new)
            open(p, "w").write(t)
        d = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True, check=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(b.get("demo") or DEMO % {"deps": b.get("deps", ""), "fcextra": b.get("fcextra", ""), "toolchain": b.get("toolchain", "stable-x86_64-unknown-linux-gnu"), "cmd": b.get("cmd", "run --offline -q")})
        open(os.path.join(d, "main.rs"), "w").write(b["main"])
        for n, t in b.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
        print("wrote", b["id"])


main()
