#!/bin/bash
# trybug.sh PATCH CHECK...: run checks against a scratch copy of /repo with PATCH applied
set -e
P=$(realpath "$1"); shift
D=$(mktemp -d /tmp/trybug-XXXXXX)
cp -a /repo/. "$D/repo"
git -C "$D/repo" apply "$P"
for c in "$@"; do
  (cd /verif && VERIF_REPO="$D/repo" ./check "$c" 2>&1 | cut -c1-600; echo "exit ${PIPESTATUS[0]}")
done
rm -rf "$D"
