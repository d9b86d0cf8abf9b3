#!/bin/bash
# matrix.sh [ID...]: every quick check against every planted bug (in copies of /repo under /tmp), into caught.txt.
cd "$(dirname "$0")/.."
V=$PWD
W=$(mktemp -d /tmp/matrix.XXXXXX)
one() {
  i=$1
  d=$W/$i; mkdir -p $d; cp -a /repo/. $d/; git -C $d apply "$V/seeded/$i/patch.diff" || exit 1
  e=$W/v.$i; mkdir $e; cp -a "$V/." $e/
  r=""
  for c in $V/checks/P*.py; do p=$(basename $c .py); (cd $e; VERIF_REPO=$d VERIF_SEED=1 timeout 880 ./run.py $p > out.$p 2>&1); [ $? = 1 ] && grep -q "VIOLATION property=$p" $e/out.$p && r="$r $p"; done
  echo "$i$r" > $W/res.$i; echo "$i$r"
  rm -rf "$d" "$e"
}
export -f one; export V W
(if [ $# -gt 0 ]; then printf "%s\n" "$@"; else ls seeded; fi) | xargs -P 4 -I{} bash -c 'one {}'
touch caught.txt
for f in $W/res.*; do i=$(basename $f | sed s/res.//); grep -v "^$i\b" caught.txt > $W/c; cat $W/c $f | sort > caught.txt; done
rm -rf "$W"
