#!/bin/bash
# tools/matrix_ns.sh [ID...]: tools/matrix.sh on copies of /repo and /verif, bind-mounted over them in a mount namespace of its own,
# such that the real ones can be worked with meanwhile. Uses /tmp/mx; remove it when done.
mkdir -p /tmp/mx
rsync -a --delete --exclude target --exclude work --exclude evidence /verif/ /tmp/mx/verif/
rsync -a --delete --exclude target /repo/ /tmp/mx/repo/
git -C /tmp/mx/repo checkout -q -- .
exec unshare -m bash -c 'mount --bind /tmp/mx/repo /repo && mount --bind /tmp/mx/verif /verif && cd /verif && bash tools/matrix.sh "$@"' _ "$@"
