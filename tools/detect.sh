#!/bin/bash
# detect.sh ID...: in scratch copies of /repo and of this directory, applies each planted bug and
# runs the check of its property (ALL=1: every check; CHECKS="C01 C02": those). V=1: more output.
# The registered checks never do this: they run against /repo itself.
. /opt/vp/env.sh
D=${DET:-/tmp/det}
mkdir -p $D/verif
[ -d $D/repo ] || cp -a /repo $D/repo
git -C $D/repo checkout -q -- .; git -C $D/repo fetch -q /repo HEAD; git -C $D/repo reset -q --hard FETCH_HEAD
mkdir -p $D/verif/sim
rsync -a --delete --exclude target --exclude replays --exclude evidence --exclude seeded --exclude .git /verif/ $D/verif/ 2>/dev/null || {
  for f in check.sh replay.sh known_findings.txt MANIFEST.json properties.jsonl; do cp /verif/$f $D/verif/; done
  rm -rf $D/verif/sim/src $D/verif/sim/vendor; rm -rf $D/verif/sim/inst; cp -a /verif/sim/src /verif/sim/vendor /verif/sim/inst /verif/sim/rustc-wrap.sh /verif/sim/Cargo.lock /verif/sim/Cargo.toml $D/verif/sim/; cp -a /verif/sim/.cargo /verif/sim/build.rs $D/verif/sim/ 2>/dev/null; }
sed -i "s#path = \"/repo\"#path = \"$D/repo\"#" $D/verif/sim/Cargo.toml $D/verif/sim/inst/Cargo.toml
mkdir -p $D/verif/evidence $D/verif/replays
for id in "$@"; do
  if [ $id = none ]; then p=C01; else
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $D/repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }; fi
  ps=${CHECKS:-$p}; [ -n "$ALL" ] && ps=$(seq -f 'C%02g' 1 20)
  hit=""; t0=$(date +%s)
  for q in $ps; do
    out=$(cd $D/verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check.sh $q 2>&1); rc=$?
    [ $rc = 1 ] && hit="$hit $q"
    [ $rc -gt 1 ] && hit="$hit $q(rc=$rc)"
    [ -n "$V" ] && echo "$out" | grep -v ^replay | tail -4 | cut -c1-300
  done
  git -C $D/repo checkout -q -- .
  case " $hit " in *" $p "*) echo "$id: CAUGHT by$hit ($(( $(date +%s)-t0 )) s)";; *) echo "$id: missed by $p; alarms:$hit";; esac
done
