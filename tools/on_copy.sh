#!/bin/bash
# on_copy.sh PATCH CHECK...   run checks against a scratch copy of /repo with
# PATCH applied (PATCH may be -REVERT:<commit> to undo a commit).  Used while
# developing; registered checks always run against /repo itself.
set -u
p=$1; shift
d=$(mktemp -d /tmp/fca-copy.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo/. "$d"
case $p in
  -REVERT:*) git -C /repo diff "${p#-REVERT:}" "${p#-REVERT:}^" | git -C "$d" apply || exit 9;;
  *) git -C "$d" apply "$p" || exit 9;;
esac
for c in "$@"; do
  VERIF_REPO=$d /opt/venv/bin/python "$(dirname "$0")/../check.py" $c; echo "== $c exit $?"
done
