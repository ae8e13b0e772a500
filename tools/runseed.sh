#!/bin/bash
# Applies seeded bugs to a scratch clone of /repo and runs the checks named in meta.json (or all with -a).
# usage: runseed.sh [-a] NAME...
all=; [ "$1" = -a ] && { all=1; shift; }
[ $# = 0 ] && set -- $(ls /verif/seeded)
one() {
  n=$1; t=$(mktemp -d /tmp/rs.XXXXXX)
  git clone -q /repo $t/repo; mkdir $t/verif
  (cd /verif && cp -a bin checker known-findings.txt properties.jsonl MANIFEST.json check.sh build.sh $t/verif/)
  mkdir $t/verif/evidence
  git -C $t/repo apply /verif/seeded/$n/patch.diff || echo "$n: patch fails"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
  [ -n "$2" ] && p=$(python3 -c "import json;print(' '.join(c['property'] if 'property' in c else c['id'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))")
  r=
  for c in $p; do
    o=$(cd $t/verif && VERIF_REPO=$t/repo timeout 900 bin/checker check $c 2>&1); s=$?
    r="$r $c=$s"; [ $s != 0 ] && echo "$o" | grep -a VIOLATION | head -2 | sed "s/^/    $n: /"
  done
  echo "$n:$r"
  rm -rf -- "$t"
}
export -f one
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c "one {} $all"
