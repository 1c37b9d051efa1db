#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there; the checks build everything else themselves from /repo's working tree."""
import subprocess, sys, os
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), HOME="/root", CARGO_NET_OFFLINE="true")
for c in (["cargo", "+stable", "--version"], ["cargo", "+nightly", "--version"]):
    print(subprocess.run(c, env=env, capture_output=True, text=True).stdout.strip())
