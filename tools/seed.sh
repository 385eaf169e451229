#!/bin/bash
# development aid: seed.sh ID [notest] - confirm the planted bug /verif/seeded/ID in the scratch copy /tmp/seed (demo both ways, stable tests) and run the property's check against it
V="$(cd "$(dirname "$0")/.." && pwd)"; R="${VERIF_REPO:-/repo}"; ID=$1; S=$V/seeded/$ID; W=/tmp/seed
[ -d $W ] || cp -a $R $W
cd $W && git fetch -q $R HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e _build
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bld() { sed 's#/repo#'$W'#g' /opt/vp/build.sh > /tmp/sbuild.sh; bash /tmp/sbuild.sh > /tmp/sbuild.log 2>&1 || { tail -5 /tmp/sbuild.log; exit 1; }; }
git apply --check $S/patch.diff || exit 1
if [ "$2" != notest ]; then
  ninja -C _build -j8 fcl >/dev/null; bash $S/demo.sh > /tmp/sdemo0.log 2>&1; echo "demo unchanged: $? $(tail -1 /tmp/sdemo0.log)"
  git apply $S/patch.diff; bld
  bash $S/demo.sh > /tmp/sdemo1.log 2>&1; echo "demo patched: $? $(tail -1 /tmp/sdemo1.log)"
  sed 's#/repo#'$W'#g' /opt/vp/test.sh > /tmp/stest.sh; sed 's#/repo#'$W'#g' /opt/vp/runtests.py > /tmp/runtests.py; cp /opt/vp/results.py /tmp/; sed -i 's#/opt/vp/runtests.py#/tmp/runtests.py#; s#/opt/vp/build.sh#/tmp/sbuild.sh#' /tmp/stest.sh; bash /tmp/stest.sh /tmp/stest.json 2>&1 | tail -1
else git apply $S/patch.diff; fi
VERIF_REPO=$W VERIF_BUILD=/tmp/seedbuild bash $V/run.sh $P --evidence /tmp/seed.ev --replaydir /tmp 2>&1 | cut -c1-300 > /tmp/schk.log; grep -c ^VIOLATION /tmp/schk.log; grep -E '^(failure|VIOLATION)' /tmp/schk.log | head -3; tail -1 /tmp/schk.log
git checkout -q -f .
