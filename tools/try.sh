#!/bin/bash
# try.sh <patch> <property id>..: runs quick checks against a scratch copy of /repo with the patch (nothing in /repo changes).
patch=$(realpath "$1"); shift
d=$(mktemp -d /tmp/try.XXXXXX)
mkdir -p $d/verif $d/repo
cp -a /repo/. $d/repo/ && rm -rf "$d/repo/target"
(cd $d/repo && git apply "$patch") || { rm -rf "$d"; exit 9; }
cp -a /verif/harness /verif/check.sh /verif/known_findings.txt $d/verif/
[ -d /verif/regress ] && cp -a /verif/regress $d/verif/
sed -i "s#path = \"/repo\"#path = \"$d/repo\"#" $d/verif/harness/Cargo.toml
cp -a /verif/target $d/verif/target
for id in "$@"; do
  out=$($d/verif/check.sh $id ${TIER:-quick} 2>&1); rc=$?
  echo "== $id rc=$rc"; echo "$out" | tail -${LINES_OUT:-3} | cut -c1-600
done
[ -n "$KEEP" ] && cp -a $d/verif/replays/. /tmp/replays/ 2>/dev/null
rm -rf "$d"
