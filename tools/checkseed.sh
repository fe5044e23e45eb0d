#!/bin/bash
# checkseed.sh ID [notest]: confirms a planted bug in a scratch copy and runs its property's check against it
id="$1"; d=/verif/seeded/$id; w="$(mktemp -d /tmp/cs_XXXXXX)"
trap 'rm -rf "$w"' EXIT
. /opt/vp/env.sh 2>/dev/null
cp -a /repo "$w/repo"; cd "$w/repo" || exit 3
bash "$d/demo.sh" >"$w/d0" 2>&1; r0=$?
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
/opt/venv/bin/python setup_compile.py build_ext --inplace >"$w/b" 2>&1 || { tail -5 "$w/b"; echo "$id: build fails"; exit 1; }
bash "$d/demo.sh" >"$w/d1" 2>&1; r1=$?
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=-
if [ "$2" != notest ]; then
  ( cd "$w/repo" && MPLBACKEND=Agg OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1 OMP_WAIT_POLICY=passive timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --randomly-seed=1 --randomly-dont-reorganize cosmic_profiles/tests >"$w/t" 2>&1 ); t=$?
fi
cd /verif; CPV_REPO="$w/repo" python3-vt -W ignore cpv/run.py $prop --tier quick >"$w/c" 2>&1; c=$?
echo "$id [$prop] demo clean=$r0 patched=$r1 tests=$t check=$c $(grep -h VIOLATION "$w/c" | tail -1)"
[ $r0 = 0 ] || tail -3 "$w/d0"
[ "$3" = v ] && { tail -2 "$w/d1"; grep -h "FAILED\|failing input" "$w/c" | cut -c1-250; tail -3 "$w/t"; }
exit 0
