#!/bin/bash
# tools/mut.sh PATCH ID... : runs the quick checks ID... against a scratch copy of /repo's
# tracked files with PATCH applied (development aid; nothing registered uses it).
patch=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mut.XXXXXX)
git -C /repo archive HEAD | tar x -C "$d" --one-top-level=repo
(cd "$d/repo" && git init -q . && git apply "$patch") || { echo "patch does not apply"; rm -rf "$d"; exit 3; }
for id in "$@"; do
  VP_REPO=$d/repo VP_BUILD=$d/build VP_REPLAY=$d/replay VP_EVIDENCE=$d/evidence VERIF_SEED=${VERIF_SEED:-1} python3 "$(dirname "$0")/../checks/run.py" "$id" quick 2>"$d/err" >"$d/out"
  rc=$?
  echo "$id rc=$rc $(grep -E 'VIOLATION' "$d/out" | head -1)"
  [ -n "$VERBOSE" ] && { head -c 1500 "$d/out"; tail -5 "$d/err"; }
  [ $rc -ge 2 ] && tail -20 "$d/err"
done
rm -rf "$d"
