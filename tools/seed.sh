#!/bin/bash
# tools/seed.sh ID: confirms a planted bug in a scratch copy of /repo (applies, builds, passes the stable tests, demo fails only with it).
# tools/seed.sh --new ID: takes the scratch copy's diff as the patch first.
# Uses /tmp/seedrepo, created on demand; remove it when done.
S=/tmp/seedrepo
. /opt/vp/env.sh
[ -d $S ] || cp -a /repo $S
if [ "$1" = --new ]; then
  shift; mkdir -p /verif/seeded/$1; git -C $S diff > /verif/seeded/$1/patch.diff
fi
D=/verif/seeded/$1
git -C $S checkout -q -- . && git -C $S clean -fdq -e target
git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
cd $S || exit 2
demo() { timeout 300 bash $D/demo.sh > /tmp/demo.log 2>&1; echo $?; }
if [ -z "$NOCLEAN" ]; then c=$(demo); [ "$c" = 0 ] || { echo "$1: demo fails on the unchanged tree: $c"; tail -20 /tmp/demo.log; exit 1; }; fi
git apply $D/patch.diff || { echo "$1: does not apply"; exit 1; }
cargo build --workspace --offline -q 2>/tmp/seedbuild.log || { echo "$1: does not build"; tail -20 /tmp/seedbuild.log; exit 1; }
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seedtest.log 2>&1
python3 /opt/vp/results.py /tmp/seedtest.json cargo:/tmp/seedtest.log > /dev/null
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtest.json'))
def names(x): return set(x.get('passed') or x.get('stable') or x.get('passing') or [])
bs,rs=names(b),names(r)
print('stable tests:',len(bs),'missing:',sorted(bs-rs)[:8])
P
c=$(demo); echo "$1: demo with the patch: $c"; [ "$c" = 0 ] && { echo BAD; tail -5 /tmp/demo.log; }
git checkout -q -- .
