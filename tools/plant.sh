#!/bin/bash
# plant.sh ID [check]: confirm the planted bug seeded/ID in a scratch copy of /repo:
# applies, demo passes without and fails with it, stable tests still pass, and does the check see it.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; d=$V/seeded/$id
S=/tmp/plant-$id
rm -rf "/tmp/plant-$id"; mkdir "$S"; git -C /repo archive HEAD | tar x -C "$S"; cp /repo/src/pystrata/_version.py "$S/src/pystrata/" 2>/dev/null
git -C /repo apply --check "$d/patch.diff" || exit 1
cp -a "$d" "$S/.demo"; rm -f "$S/.demo/patch.diff" "$S/.demo/meta.json"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$S/src MPLBACKEND=Agg
(cd "$S" && timeout 300 bash .demo/demo.sh >"$S/.o1" 2>&1); a=$?
(cd "$S" && patch -s -p1 <"$d/patch.diff")
(cd "$S" && timeout 300 bash .demo/demo.sh >"$S/.o2" 2>&1); b=$?
echo "$id demo: clean=$a patched=$b"; [ $a = 0 ] || tail -5 "$S/.o1"; tail -2 "$S/.o2"
if [ -z "${NOTEST:-}" ]; then
  (cd "$S" && PYTHONPATH=$S/src:/opt/vp/support OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p vp_seed -p no:cacheprovider -n 6 --timeout=300 tests --ignore=tests/notebooks_test.py --junitxml="$S/.j.xml" >"$S/.t" 2>&1)
  mkdir -p "$S/.nb"; cp -a "$S/tests" "$S/examples" "$S/pytest.ini" "$S/pyproject.toml" "$S/.nb/"
  [ -n "${NONB:-}" ] || (cd "$S/.nb" && PYTHONPATH=$S/src:/opt/vp/support OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p vp_seed -p no:cacheprovider -n 6 --timeout=600 tests/notebooks_test.py --junitxml="$S/.k.xml" >"$S/.t2" 2>&1)
  grep -h "^FAILED\|^ERROR" "$S/.t" "$S/.t2" 2>/dev/null; tail -1 "$S/.t"; tail -1 "$S/.t2" 2>/dev/null
fi
unset PYTHONPATH
if [ -n "${2:-}" ]; then
  (cd "$V" && VERIF_REPO=$S timeout 900 python3 check.py "$2" | tail -4; echo "check rc=${PIPESTATUS[0]}")
fi
rm -rf "/tmp/plant-$id"
