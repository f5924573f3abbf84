#!/bin/bash
# tools/plant.sh new            fresh scratch clone in /tmp/x/s
# tools/plant.sh save ID        diff of the scratch clone -> seeded/ID/patch.diff
# tools/plant.sh test ID        demo without/with the patch, the stable tests with it
# tools/plant.sh check ID [C..] the checks with the patch (default: its property)
S=${S:-/tmp/x/s}
V=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
fresh() {
  find $S -depth -delete 2>/dev/null
  git clone -q /repo $S && cp /repo/src/exoplanet/exoplanet_version.py $S/src/exoplanet/
}
demo() { (cd $1 && PYTHONPATH=$1/src timeout 300 bash $V/seeded/$2/demo.sh); }
case $1 in
new) fresh ;;
save) mkdir -p $V/seeded/$2; git -C $S diff > $V/seeded/$2/patch.diff; cat $V/seeded/$2/patch.diff ;;
test)
  fresh
  demo $S $2 > $S.demo0.log 2>&1; a=$?
  git -C $S apply $V/seeded/$2/patch.diff || exit 1
  demo $S $2 > $S.demo1.log 2>&1; b=$?
  echo "$2 demo: unpatched $a patched $b"; tail -2 $S.demo1.log
  [ $a = 0 ] || tail -5 $S.demo0.log
  cd $S && PYTHONPATH=/opt/vp/pytest_plugins:$S/src "$PY" -m pytest -q -p pytensor_cache \
    -p no:cacheprovider -n 8 --timeout=600 2>&1 | tail -4 ;;
check)
  fresh
  git -C $S apply $V/seeded/$2/patch.diff || exit 1
  id=$2; shift 2
  props=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
  for p in $props; do
    SIM_REPO=$S SIM_OUT=$S.out $V/run.sh check $p > $S.chk.log 2>&1; r=$?
    echo "$id $p exit $r: $(grep -a -m1 VIOLATION $S.chk.log) $(grep -a -m1 -i 'kind' $S.chk.log | head -c 300)"
  done ;;
esac
