#!/bin/bash
# run.sh PROPERTY OUT SEED DRIVER...: builds a scratch copy of /repo's working tree and runs the drivers on it
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; out="$2"; seed="$3"; shift 3
. /opt/vp/env.sh 2>/dev/null
repo="${CPV_REPO:-/repo}"
tmp="$(mktemp -d /tmp/cpv_replay_XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/repo" "$tmp/work"
( cd "$repo" && tar --exclude=./.git --exclude=./docs -cf - . ) | ( cd "$tmp/repo" && tar -xf - )
cd "$tmp/repo" || exit 3
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
if [ -f setup_compile.py ]; then
  timeout 300 $PY setup_compile.py build_ext --inplace >"$tmp/build.log" 2>&1 || { tail -20 "$tmp/build.log"; echo "build failed"; }
fi
cd "$tmp/work" || exit 3
for d in "$@"; do
  # one search on a single thread (every object reuses the same scratch), one on several
  pids=""
  for n in 1 4; do
    PYTHONPATH="$tmp/repo:$here" OMP_NUM_THREADS=$n timeout 150 $PY -W ignore "$here/$d.py" "$prop" "$out" "$seed$n" "$tmp/work" &
    pids="$pids $!"
  done
  for i in $pids; do
    wait -n
    [ -f "$out" ] && { kill $pids 2>/dev/null; break; }
  done
  wait
  [ -f "$out" ] && break
done
exit 0
